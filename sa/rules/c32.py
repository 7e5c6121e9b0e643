"""Every call of the printf family and of the library's own variadic output
functions is typed against its format by the compiler's format checker. The
library's functions get the checker's annotation from the analysis itself: a
variadic function whose parameter flows into the format position of a v*printf
call (found by dataflow over LLVM IR, through helpers) is redeclared with the
format attribute in a generated header, then every source file of the library
and the samples is type-checked with format, argument-count and non-literal
checks on. Parameters handed on to strftime or to a va_list helper must be
constant strings at every call site."""
import os, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import build
from evt import *
LEVEL = "other"

VF = {"vprintf": 0, "vfprintf": 1, "vdprintf": 1, "vsprintf": 1, "vsnprintf": 2, "strftime": 2, "vsyslog": 1, "vasprintf": 1,
      "__vsnprintf_chk": 4, "__vsprintf_chk": 3, "__vfprintf_chk": 2, "__vprintf_chk": 1}
DIRECT = re.compile(r"^(std::)?(printf|fprintf|dprintf|sprintf|snprintf|asprintf|syslog|scanf|sscanf|fscanf|__\w*printf_chk)$")
KNOWN_VARIADIC = re.compile(r"^(fcntl|fcntl64|ioctl|open|open64|openat|prctl|syscall|semctl|execl\w*|llvm\..*)$")

def bare(c): return (c or "").replace("std::", "")

def run(ctx):
    progs = [ctx.program("prim"), ctx.program("prim", cppflags=("-DNDEBUG",))] + [p for _, p in ctx.samples()]
    # ---- which parameters are formats
    fmts = {}        # function base -> set of argument positions
    for _ in range(6):
        ch = False
        for P in progs:
            for f in P.fns.values():
                for I in f.calls():
                    c = bare(I.callee)
                    at = {VF[c]} if c in VF else fmts.get(I.callee, set())
                    for k in at:
                        if k >= len(I.o): continue
                        e = static_ev(f, I.o[k])
                        if e[0] == "arg" and e[1] not in fmts.setdefault(f.base, set()): fmts[f.base].add(e[1]); ch = True
        if not ch: break
    var = {}
    for P in progs:
        for f in P.fns.values():
            if f.base in fmts and f.dem.endswith("...)"): var[f.base] = (f, min(fmts[f.base]), len(f.args))
    # a private helper that was inlined away needs no annotation; one that stays and cannot be declared again is not analysed
    decl = []
    for b, (f, k, n) in sorted(var.items()):
        ret = {"void": "void", "i32": "int", "i1": "bool", "i64": "long"}.get(f.ret)
        ns = b.split("::")[:-1]
        if ret is None or "(anonymous" in f.dem or "<" in b: continue
        decl.append("%s %s %s __attribute__((format(printf,%d,%d)));%s" % ("".join("namespace %s { " % x for x in ns), ret, f.dem[len("::".join(ns)) + (2 if ns else 0):], k + 1, n + 1, " }" * len(ns)))
    ctx.need(len(decl), 1, "variadic output function of the library")
    # ---- constant formats where the checker does not look
    calls = 0
    for P in progs:
        for f in P.fns.values():
            for I in f.calls():
                c = I.callee or ""; at = None
                if c in fmts and c not in var: at = fmts[c]
                elif bare(c) == "strftime": at = {2}
                elif bare(c) in VF: at = {VF[bare(c)]}
                if at is None: continue
                for k in at:
                    e = static_ev(f, I.o[k]) if k < len(I.o) else None
                    ok = e is not None and (e[0] == "glob" or e[0] == "arg" and e[1] in fmts.get(f.base, ()))
                    ctx.check(ok, "a format that is handed on is a constant", I.where(), "%s: format of %s" % (f.short(), c), (), key="format|%s" % f.base)
                calls += 1
    # ---- the checker
    d = tempfile.mkdtemp(prefix="c32-", dir=build.CACHE if os.path.isdir(build.CACHE) else None); n = 0
    try:
        build.make_config(os.path.join(d, "cyclone_config.h"), set(build.HAVE))
        open(os.path.join(d, "fmt.h"), "w").write("#include <cy_core.h>\n" + "\n".join(decl) + "\n")
        base = [x for x in build.flags(d) if x not in ("-w", "-g", "-flto", "-fwhole-program-vtables")]
        srcs = build.lib_sources() + build.samples_sources()
        drv = [os.path.join(build.VERIF, "sa", "drivers", x) for x in sorted(os.listdir(os.path.join(build.VERIF, "sa", "drivers"))) if x.endswith(".cpp")]
        def one(s):
            out = []
            for nd in ((), ("-DNDEBUG",)):
                r = build.sh([build.CLANG] + base + list(nd) + ["-fsyntax-only", "-Wno-everything", "-Wformat", "-Wformat-nonliteral", "-Wformat-extra-args", "-Wformat-zero-length" if False else "-Wformat-invalid-specifier",
                              "-fno-caret-diagnostics", "-ferror-limit=0", "-include", os.path.join(d, "fmt.h"), s])
                if r.returncode: raise build.BuildError("clang failed on %s:\n%s" % (s, r.stderr[-2000:]))
                out += re.findall(r"^(/[^:\n]+):(\d+):(\d+): warning: (.*)$", r.stderr, re.M)
            return out
        bad = set()
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(one, srcs + drv): bad |= set(r)
    finally: shutil.rmtree(d, ignore_errors=True)
    # where the analysis above decides about a format that is handed on
    mine = {}
    sites = set()
    for P in progs:
        for f in P.fns.values():
            for I in f.calls():
                if not I.d: continue
                c = I.callee or ""; w = (os.path.join(build.REPO, I.d[0][1]), str(I.d[0][0]))
                if bare(c) in VF or c in fmts and c not in var: mine.setdefault(w, set()).add(c)
                if DIRECT.search(bare(c)) or c in var: sites.add(w + (bare(c),))
    hit = set()
    for fl, ln, col, msg in sorted(bad):
        rel = os.path.relpath(fl, build.REPO)
        if "not a string literal" in msg and (fl, ln) in mine: continue
        if "not a string literal" in msg and not any((fl, ln) == x[:2] for x in sites) and near(fl, int(ln)): continue
        hit.add((fl, ln))
        ctx.bad("every format matches its arguments", "%s:%s" % (rel, ln), msg, (), key="format|%s|%s" % (rel, re.sub(r"\d+", "", msg)))
    for w in sorted(sites):
        if w[:2] not in hit: ctx.ok("every format matches its arguments", "%s:%s" % (os.path.relpath(w[0], build.REPO), w[1]), w[2])
    ctx.need(len(sites), 100, "formatted output calls")
    ctx.cover["source files type-checked"] = len(srcs)
    ctx.cover["functions that take a format"] = ", ".join("%s (argument %d%s)" % (b, min(k) + 1, ", variadic" if b in var else "") for b, k in sorted(fmts.items()))
    ctx.cover["formatted output call sites"] = len(sites)
    ctx.assumption("the format checker of clang 18 knows the conversions of the C library in use")

def near(path, line):
    """the call at this place takes a va_list"""
    L = open(path, encoding="utf-8", errors="replace").read().split("\n")
    return re.search(r"\bv\w*printf\s*\(|\bstrftime\s*\(", " ".join(L[max(0, line - 3):line])) is not None
