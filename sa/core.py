"""Check runner support: program loading, obligations, violations, evidence."""
import os, sys, json, time, re, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build, ir
from ir import Vanished
VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")

class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.t0 = time.time()
        self.obl = []            # (rule, where, ok)
        self.viol = []           # dicts
        self.cover = {}
        self.assume = []
        self.trust = ["clang 18 front end, LLVM AlwaysInliner and SROA (the resolved program)", "sa/ (the analyses), tool/irx.cpp (the normaliser)"]
        self._p = {}
        self.notes = []
    # ---- program
    def program(self, view="prim", what="lib", **kw):
        k = (view, what, repr(sorted(kw.items())))
        if k not in self._p:
            js, units = build.view(view, what, **kw)
            self._p[k] = ir.Prog(js, units)
        return self._p[k]
    def sample(self, name, view="prim"):
        return self.program(view, "samples", tus=["samples/" + t for t in build.SAMPLES[name]])
    def samples(self, view="prim"):
        return [(n, self.sample(n, view)) for n in build.SAMPLES]
    # ---- verdicts
    def ok(self, rule, where, detail=""):
        self.obl.append((rule, str(where), True, detail))
    def bad(self, rule, where, detail, trace=(), key=None):
        self.obl.append((rule, str(where), False, detail))
        k = key or ("%s|%s" % (rule, re.sub(r":\d+", "", str(where))))
        for v in self.viol:
            if v["key"] == k and v["detail"] == detail: return
        self.viol.append({"rule": rule, "where": str(where), "detail": detail, "trace": list(trace), "key": k})
    def check(self, cond, rule, where, detail, trace=(), key=None):
        if cond: self.ok(rule, where, detail)
        else: self.bad(rule, where, detail, trace, key)
        return cond
    def need(self, n, minimum, what):
        """instance floor: a rule that found nothing to judge gives no verdict"""
        self.cover[what] = n
        if n < minimum: raise Vanished("%s: found %d, expected at least %d" % (what, n, minimum))
    def count(self, what, n=1):
        self.cover[what] = self.cover.get(what, 0) + n
    def assumption(self, s):
        if s not in self.assume: self.assume.append(s)

def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(.+?) :: (.*)", l.rstrip("\n"))
            if m: out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out

def run(prop, tier):
    import importlib
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier)
    mod = importlib.import_module("rules." + prop.lower())
    try:
        mod.run(ctx)
        if not ctx.obl: raise Vanished("no obligation was generated")
    except (Vanished, build.BuildError) as e:
        print("ANALYSIS-ERROR property=%s %s: %s" % (prop, type(e).__name__, e))
        if not [v for v in ctx.viol if v["key"] not in load_known().get(prop, {})]: return 2
    except Exception:
        traceback.print_exc(); print("ANALYSIS-ERROR property=%s internal error" % prop); return 2
    known = load_known().get(prop, {})
    new = [v for v in ctx.viol if v["key"] not in known]
    old = [v for v in ctx.viol if v["key"] in known]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    good = sum(1 for o in ctx.obl if o[2])
    rules = {}
    for r, w, ok, d in ctx.obl:
        e = rules.setdefault(r, {"obligations": 0, "discharged": 0, "sites": []})
        e["obligations"] += 1; e["discharged"] += ok
        if len(e["sites"]) < 60 and w not in e["sites"]: e["sites"].append(w)
    level = getattr(mod, "LEVEL", "other")
    cov = {"obligations": len(ctx.obl), "discharged": good, "rules": rules, "measured": ctx.cover}
    if level == "proof":
        cov["checker_cmd"] = "/verif/check %s" % prop
        cov["trusted_base"] = ctx.trust
    cov["explanation"] = " ".join((mod.__doc__ or "").split()) + " | program analysed: " + "; ".join(
        "%s (%d translation units, %d functions)" % (k[0] + "/" + k[1], len(p.units), len(p.fns)) for k, p in ctx._p.items())
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - ctx.t0, 2),
          "assumptions": ctx.assume, "violations": [dict(v) for v in new]}
    if old: ev["known_findings"] = [v["key"] for v in old]
    path = os.path.join(VERIF, "evidence", prop + ".json")
    json.dump(ev, open(path, "w"), indent=1)
    seen = set()
    for v in old:
        if v["key"] in seen: continue
        seen.add(v["key"])
        print("KNOWN-FINDING: property=%s %s" % (prop, known[v["key"]]))
    print("%s: %d obligations, %d discharged, %d violations, %.1fs" % (prop, len(ctx.obl), good, len(new), time.time() - ctx.t0))
    rp = os.path.join("evidence", prop + ".replay.txt")
    full = os.path.join(VERIF, rp)
    if os.path.exists(full): os.remove(full)
    if new:
        with open(full, "w") as f:
            for v in new:
                f.write("[%s] %s\n  %s\n  key: %s\n" % (v["rule"], v["where"], v["detail"], v["key"]))
                for t in v["trace"]: f.write("    %s\n" % t)
        for v in new[:20]:
            print("  [%s] %s: %s" % (v["rule"], v["where"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0
