#!/usr/bin/env python3
"""seed.py <id>... : validate planted changes in scratch copies of /repo.
For each: patch applies, tree builds, stable tests pass, demo passes on the clean copy and fails on the patched
one, and which checks report it (own property by default, --all for every check).  Nothing is left behind."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(x.split("::")[0] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(cmd, **kw):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    except subprocess.TimeoutExpired as e:
        class R: returncode = 124; stdout = "timeout " + str(e.stdout or "")[-500:]
        return R
def build(d):
    env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C")
    r = sh(["cmake", "-S", d, "-B", d + "/_build", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g -Wno-error",
            "-DCMAKE_CXX_STANDARD=14", "-DCMAKE_CXX_FLAGS=-include memory", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"], env=env)
    if r.returncode: return r
    return sh(["ninja", "-C", d + "/_build"], env=env)
def base():
    """a clean built copy shared by all seeds of this run"""
    d = "/tmp/cyseed/base"
    head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    if os.path.exists(d + "/.head") and open(d + "/.head").read() == head: return d
    shutil.rmtree("/tmp/cyseed", ignore_errors=True); os.makedirs("/tmp/cyseed")
    sh(["git", "clone", "-q", "/repo", d])
    r = build(d)
    assert r.returncode == 0, r.stdout[-2000:]
    open(d + "/.head", "w").write(head)
    return d
def test(d):
    x = tempfile.mktemp(dir="/tmp/cyseed")
    r = sh(["ctest", "--test-dir", d + "/_build", "-j1", "--timeout", "60", "--output-junit", x])
    import xml.etree.ElementTree as E
    failed = [t.get("name") for t in E.parse(x).getroot().iter("testcase") if t.get("status") != "run"]
    os.unlink(x)
    return [f for f in failed if f in STABLE]
def demo(sd, d):
    t = tempfile.mkdtemp(dir="/tmp/cyseed")
    for f in os.listdir(sd):
        if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(os.path.join(sd, f), t)
    r = sh(["bash", t + "/demo.sh"], cwd=d, timeout=300)
    shutil.rmtree(t)
    return r
def main():
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    every = "--all" in sys.argv; only = "--check-only" in sys.argv
    if not a: a = sorted(os.listdir(V + "/seeded"))
    for s in a:
        sd = os.path.join(V, "seeded", s); s = os.path.basename(s)
        prop = json.load(open(sd + "/meta.json"))["property"]
        b = base(); d = "/tmp/cyseed/w"
        sh(["rsync", "-a", "--delete", "--exclude", "_build", b + "/", d + "/"]) if False else None
        if not os.path.exists(d):
            sh(["git", "clone", "-q", "/repo", d])
            if not only:
                r = build(d); assert r.returncode == 0, r.stdout[-2000:]
        sh(["git", "-C", d, "fetch", "-q"]); sh(["git", "-C", d, "reset", "-q", "--hard", "origin/HEAD"])
        r = sh(["git", "-C", d, "apply", sd + "/patch.diff"])
        if r.returncode: print(s, "PATCH FAILS", r.stdout); continue
        res = []
        if not only:
            r = build(d)
            if r.returncode: print(s, "BUILD FAILS", r.stdout[-1500:]); continue
            bad = test(d)
            if bad: bad = test(d)
            res.append("tests ok" if not bad else "TESTS FAIL %s" % bad)
            r = demo(sd, b)
            res.append("clean demo ok" if r.returncode == 0 else "CLEAN DEMO FAILS rc=%d %s" % (r.returncode, r.stdout[-800:]))
            r = demo(sd, d)
            res.append("patched demo fails (%s)" % r.stdout.strip().split("\n")[-1][:100] if r.returncode else "PATCHED DEMO PASSES")
        env = dict(os.environ, CY_REPO=d)
        props = sorted(x["property"] for x in json.load(open(V + "/MANIFEST.json"))["checks"]) if every else [prop]
        hit = []
        for p in props:
            r = sh([V + "/check", p], env=env)
            if r.returncode == 1: hit.append(p)
            elif r.returncode: hit.append("%s:rc%d" % (p, r.returncode))
            if "-v" in sys.argv and r.returncode: print(r.stdout[-1500:])
        res.append("caught by " + ",".join(hit) if prop in hit else "MISSED by %s (others: %s)" % (prop, hit))
        print(s, "[%s]" % prop, "; ".join(res)); sys.stdout.flush()
        sh(["git", "-C", d, "checkout", "-q", "--", "."])
main()
