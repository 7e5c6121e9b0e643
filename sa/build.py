"""Builds the resolved program: compiles every translation unit of /repo's
current working tree to LLVM IR with clang and runs the irx normaliser.
Nothing of the analysed program is executed."""
import os, sys, hashlib, subprocess, json, tempfile, shutil, glob, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CY_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
CLANG = next((c for c in ("/usr/bin/clang++-18", "/usr/lib/llvm-18/bin/clang++", "/usr/bin/clang++") if os.path.exists(c)), "clang++")

class BuildError(Exception):
    pass

HAVE = {"CY_HAVE_UNISTD_H", "CY_HAVE_INTTYPES_H", "CY_HAVE_SYS_UIO_H", "CY_HAVE_SYS_EVENTFD_H",
        "CY_SYS_LINUX", "CY_HAVE_EPOLL", "CY_HAVE_READWRITE_V", "CY_HAVE_PIPE2", "CY_HAVE_TIMERFD",
        "CY_HAVE_TIMED_LOCK", "CY_ENABLE_LOG"}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def source_files():
    out = []
    for root in ("source", "samples"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in fs:
                if f.endswith((".cpp", ".h", ".in", ".inl", ".hpp", ".cc", ".c")):
                    out.append(os.path.join(d, f))
    return sorted(out)

def digest(extra=()):
    h = hashlib.sha256()
    h.update(REPO.encode())
    files = source_files()
    for f in files:
        h.update(os.path.relpath(f, REPO).encode()); h.update(open(f, "rb").read())
    for f in sorted(glob.glob(os.path.join(VERIF, "tool", "*")) + glob.glob(os.path.join(VERIF, "sa", "drivers", "*"))
                    + glob.glob(os.path.join(VERIF, "sa", "views", "*")) + [os.path.join(VERIF, "sa", "build.py")]):
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:24]

def tool():
    src = os.path.join(VERIF, "tool", "irx.cpp")
    hd = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, "irx-" + hd)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".%d" % os.getpid()
    r = sh(["g++", "-O1", "-std=c++17", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
            "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-fno-exceptions", "-o", tmp, src,
            "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    if r.returncode:
        raise BuildError("cannot build irx: " + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe

def make_config(path, have):
    src = open(os.path.join(REPO, "source", "cyclone_config.h.in"), encoding="utf-8-sig").read()
    out = []
    for l in src.split("\n"):
        m = re.match(r"#\s*cmakedefine\s+(\w+)(.*)", l)
        if m:
            out.append("#define %s%s" % (m.group(1), m.group(2)) if m.group(1) in have else "/* #undef %s */" % m.group(1))
        else:
            out.append(l)
    open(path, "w").write("\n".join(out))

INC = ["source/cyCore", "source/cyEvent", "source/cyNetwork", "source/cyCrypt", "source/cyUtility"]

def flags(cfgdir, extra=()):
    f = ["-x", "c++", "-std=gnu++14", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fstandalone-debug", "-fno-exceptions",
         "-fno-discard-value-names", "-fno-threadsafe-statics", "-fwhole-program-vtables", "-flto", "-fvisibility=hidden",
         "-w", "-include", "memory", "-I" + cfgdir]
    f += ["-I" + os.path.join(REPO, i) for i in INC]
    return f + list(extra)

def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "source")):
        out += [os.path.join(d, f) for f in fs if f.endswith(".cpp") and f not in OTHER_BACKENDS]
    return sorted(out)

# event backends of other platforms: not part of the Linux build
OTHER_BACKENDS = {"cye_looper_kqueue.cpp", "cye_looper_select.cpp"}

SAMPLES = {  # program -> translation units (relative to samples/)
    "timer": ["timer/timer.cpp"], "echo_server": ["echo/echo_server.cpp"], "echo_client": ["echo/echo_client.cpp"],
    "chat_server": ["chat/chat_server.cpp"], "chat_client": ["chat/chat_client.cpp"],
    "ft_server": ["filetransfer/ft_server.cpp"], "ft_client": ["filetransfer/ft_client.cpp"],
    "relay_pipe": ["relay/relay_pipe.cpp"], "relay_local": ["relay/relay_local.cpp"],
    "relay_server": ["relay/relay_server.cpp"], "socks5": ["socks5/s5_main.cpp", "socks5/s5_protocol.cpp"],
}

def samples_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "samples")):
        out += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(out)

class Program:
    """One normalised module."""
    def __init__(self, js):
        self.__dict__.update(js)

def compile_all(have=None, what="lib", cppflags=()):
    """-> dict source path -> bitcode path (cached)."""
    have = set(HAVE if have is None else have)
    key = digest((sorted(have), what, list(cppflags)))
    outdir = os.path.join(CACHE, "bc-" + key)
    done = os.path.join(outdir, "DONE")
    if os.path.exists(done):
        return json.load(open(done))
    tmp = outdir + ".%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(tmp, "cfg"))
    make_config(os.path.join(tmp, "cfg", "cyclone_config.h"), have)
    srcs = []
    if what in ("lib",):
        srcs = lib_sources() + sorted(glob.glob(os.path.join(VERIF, "sa", "drivers", "*.cpp")))
    elif what == "samples":
        srcs = samples_sources()
    else:
        srcs = [os.path.join(REPO, what)]
    m = {}
    def one(i, s):
        o = os.path.join(tmp, "%d.bc" % i)
        r = sh([CLANG] + flags(os.path.join(tmp, "cfg"), list(cppflags)) + ["-c", s, "-o", o])
        return s, o, r
    with ThreadPoolExecutor(8) as ex:
        for s, o, r in ex.map(lambda t: one(*t), list(enumerate(srcs))):
            if r.returncode:
                shutil.rmtree(tmp, ignore_errors=True)
                raise BuildError("clang failed on %s:\n%s" % (s, r.stderr[-3000:]))
            m[s] = os.path.join(outdir, os.path.basename(o))
    json.dump(m, open(os.path.join(tmp, "DONE"), "w"))
    try:
        os.rename(tmp, outdir)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return m

def view(name, what="lib", have=None, cppflags=(), tus=None):
    """Normalised program for view <name> (sa/views/<name>.keep, .inline)."""
    m = compile_all(have, what, cppflags)
    keep = os.path.join(VERIF, "sa", "views", name + ".keep")
    inl = os.path.join(VERIF, "sa", "views", "std.inline")
    if os.path.exists(os.path.join(VERIF, "sa", "views", name + ".inline")):
        inl = os.path.join(VERIF, "sa", "views", name + ".inline")
    bcs = [m[s] for s in sorted(m) if tus is None or any(s.endswith(t) for t in tus)]
    if not bcs:
        raise BuildError("no translation units for view " + name)
    d = os.path.dirname(bcs[0])
    tag = hashlib.sha256(repr([os.path.basename(b) for b in bcs]).encode()).hexdigest()[:10]
    out = os.path.join(d, "%s-%s.json" % (name, tag))
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        r = sh([tool(), "-o", tmp, "--keep", keep, "--inline", inl, "--repo", REPO + "/"] + bcs)
        if r.returncode:
            raise BuildError("irx failed: " + r.stderr[-3000:])
        os.rename(tmp, out)
    return json.load(open(out)), [s for s in sorted(m) if tus is None or any(s.endswith(t) for t in tus)]

def prune_cache(keep_n=6):
    try:
        ds = sorted(glob.glob(os.path.join(CACHE, "bc-*")), key=os.path.getmtime, reverse=True)
        for d in ds[keep_n * 4:]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass

if __name__ == "__main__":
    tool()
    print("tool ok")
