"""Typestate of every path through the logging functions. A message produces
output only when its level is a valid one (interval facts cover exactly the
names that were stored) and not below the threshold; a path that returns
silently is one where the level is invalid or too low or the directory or file
could not be made. The formatted text is complete when it is printed: every
outcome of each formatting call is followed (error, fits, cut short), a message
that was cut short is formatted again into memory of exactly the announced size
plus one, from a freshly started argument list, and that memory is freed on
every path; one line ending in a newline goes to the file, which is closed once
on every path, also when later steps fail."""
from collections import namedtuple
from evt import *
LEVEL = "other"

DF = "cyclone::DiskLogFile"
L = namedtuple("L", "filt files va lens bufs lines why sizes")
ZERO = L(None, (), (), (), (), (), frozenset(), ())
OUT = re.compile(r"^(std::)?(fprintf|vfprintf|fputs|fputc|putc|fwrite|printf|puts|putchar|vprintf|write|dprintf|perror)$")
FMT = re.compile(r"^(std::)?v(sn|s)printf$")
PUREC = re.compile(PURE.pattern + r"|^(fopen|fclose|fprintf|vsnprintf|std::vsnprintf|access|mkdir|malloc|calloc|free|strlen|fputs|fputc|fflush|stat|llvm\..*)$|^std::__cxx11::basic_string<|^cyclone::sys_api::|^std::(vector|unique_ptr)<|^std::operator|^operator ")

def root(e):
    while e[0] in ("fld", "idx", "off", "cast"):
        if e[0] == "idx" and e[2] != ("const", 0): return None
        e = e[2] if e[0] == "cast" else e[1]
    return e
def member(e):
    while e[0] in ("idx", "off", "cast"): e = e[2] if e[0] == "cast" else e[1]
    return e[2].split(".")[-1] if e[0] == "fld" else None
def glob(e): return e[0] == "ld" and e[2][0] == "glob" and e[2][1]

class Log(R0):
    keep_locals = True
    def __init__(s, ctx, f, names): R0.__init__(s, ctx, f); s.names = names; s.hit = {}; s.lvl = None; s.bad = set()
    def init(s): return ZERO
    def keep_exprs(s, rs):
        return [x for x in rs.files] + [x for x in rs.lens] + [b for b, _ in rs.bufs if b[0] != "alloca"] + [z for _, z in rs.sizes] + [x for x in rs.lines if isinstance(x, tuple)] + ([s.lvl] if s.lvl else [])
    def ck(s, c, rule, I, what, W):
        s.hit[rule] = s.hit.get(rule, 0) + 1
        s.ctx.check(c, rule, I.where(), "%s: %s" % (s.f.short(), what), W.trace(), key="%s|%s" % (rule, s.f.base))
        return c
    def buf(s, rs, b): return next((v for k, v in rs.bufs if k == b), None)
    def setbuf(s, rs, b, v): return rs._replace(bufs=tuple([(k, x) for k, x in rs.bufs if k != b] + ([(b, v)] if v else [])))
    def keepmem(s, k): return False
    def valid(s, st):
        if s.lvl is None: return False
        lo, hi, ex = st.facts.get(s.lvl)
        return lo >= 0 and hi < s.names
    def invalid(s, st):
        if s.lvl is None: return False
        lo, hi, ex = st.facts.get(s.lvl)
        return hi < 0 or lo >= s.names
    def step(s, st, I, W):
        rs = st.rs
        if I.op == "load":
            a = W.ev(st, I.o[0])
            if a[0] == "idx" and member(a) == "level_name":
                k = a[2]
                lo, hi, ex = st.facts.get(k) if k[0] != "const" else (k[1], k[1], ())
                s.ck(lo >= 0 and hi < s.names, "a level's name is only looked up for a valid level", I, "index %s in [%s, %s] of %d" % (fmt(k), lo, hi, s.names), W)
            return None
        if I.op == "store":
            a = W.ev(st, I.o[1]); v = W.ev(st, I.o[0])
            if a[0] == "idx" and (v == ("const", 0) or I.ty == "i8"):
                b = a[1]
                if b[0] == "call" and s.buf(rs, b):
                    z = next((y for x, y in rs.sizes if x == b), None)
                    s.ck(z is not None and (z == ("bin", "add", a[2], ("const", 1)) or z[0] == "const" and a[2][0] == "const" and 0 <= a[2][1] < z[1]), "the memory of a long message is exactly large enough", I, "terminator at %s" % fmt(a[2]), W)
            if a[0] == "fld" and member(a) == "level_threshold" and v[0] != "const":
                lo, hi, ex = st.facts.get(v)
                s.ck(lo >= 0 and hi <= s.names, "only a valid threshold is stored", I, "in [%s, %s]" % (lo, hi), W)
            return None
        if I.op == "call": return s.call(st, I, W)
    def branch(s, st, t, c, val, W):
        if c[0] != "cmp": return
        p, a, b = c[1], c[2], c[3]
        if not val: p = NEG[p]
        x, y = root(a), root(b)
        if x is not None and y is not None and "alloca" in (x[0], y[0]) and p in ("eq", "ne") and (x[0] in ("alloca", "call") and y[0] in ("alloca", "call")):
            return (x == y) == (p == "eq")       # a local array is no other object
        if a[0] == "ld" and member(a[2]) == "level_threshold" and b[0] != "const": a, b, p = b, a, SWAP[p]
        if b[0] == "ld" and member(b[2]) == "level_threshold" and a[0] == "arg":
            if p[1:] == "ge" or p == "eq": st.rs = st.rs._replace(filt="pass")
            elif p[1:] == "gt" or p == "ne" and st.rs.filt == "pass": st.rs = st.rs._replace(filt="pass")
            elif p[1:] == "lt": st.rs = st.rs._replace(filt="low", why=st.rs.why | {"low"})
            elif p[1:] == "le": st.rs = st.rs._replace(filt="maybe")
    def call(s, st, I, W):
        rs = st.rs; c = (I.callee or ""); args = [W.ev(st, o) for o in I.o]; b = c.replace("std::", "")
        res = ("call", I.i, I.callee, tuple(args)); 
        def outs(*alts):
            r = []
            for rs2, facts in alts:
                x = st.copy(); x.rs = rs2; x.facts.m.pop(res, None)
                if all(x.facts.assume(res, p, k) is not False for p, k in facts): r.append(x)
            return r
        if b in ("fopen", "fdopen", "freopen"):
            s.hit["open"] = s.hit.get("open", 0) + 1
            s.gate(st, I, W)
            return outs((rs._replace(files=rs.files + (res,), why=rs.why - {"open"}), [("ne", 0)]), (rs._replace(why=rs.why | {"open"}), [("eq", 0)]))
        if b == "mkdir":
            s.gate(st, I, W)
            return outs((rs, [("eq", 0)]), (rs._replace(why=rs.why | {"mkdir"}), [("ne", 0)]))
        if b == "fclose":
            s.ck(args[0] in rs.files, "the log file is closed once", I, "closes %s" % fmt(args[0]), W)
            st.rs = rs._replace(files=tuple(x for x in rs.files if x != args[0])); return None
        if b == "llvm.va_start": st.rs = s.va(rs, root(args[0]), "fresh"); s.hit["va"] = 1; return None
        if b in ("llvm.va_copy",):
            k = dict(rs.va).get(root(args[1]))
            st.rs = s.va(rs, root(args[0]), "fresh" if k == "fresh" else "used"); return None
        if b == "llvm.va_end":
            k = dict(rs.va).get(root(args[0]))
            s.ck(k in ("fresh", "used"), "an argument list is ended once", I, "state %s" % k, W)
            st.rs = s.va(rs, root(args[0]), "ended"); return None
        if FMT.search(c):
            va = root(args[-1]); k = dict(rs.va).get(va)
            s.ck(k == "fresh", "an argument list is consumed only after a fresh start", I, "state %s" % k, W)
            rs = s.va(rs, va, "used"); dst = root(args[0]); n = args[1]
            if len(args) < 4: s.ck(False, "the formatted text is bounded", I, c, W); return None
            if not s.level_ok: pass
            rs = rs._replace(lens=rs.lens + (res,) if res not in rs.lens else rs.lens)
            if args[0] == ("const", 0): return outs((rs, []))
            if dst is not None and dst[0] == "alloca":
                size = s.f.ins[dst[1]].j.get("size") or 0
                if not s.ck(n[0] == "const" and 0 < n[1] <= size, "the formatted text is bounded", I, "%s of %d bytes" % (fmt(n), size), W): return None
                return outs((s.setbuf(rs, dst, "err"), [("slt", 0)]), (s.setbuf(rs, dst, "full"), [("sge", 0), ("slt", n[1])]), (s.setbuf(rs, dst, "cut"), [("sge", n[1])]))
            z = next((y for x, y in rs.sizes if x == dst), None)
            one = lambda e: e[0] == "bin" and e[1] == "add" and e[3] == ("const", 1) and e[2] in rs.lens and e[2] != res
            good = z is not None and z == n and one(n)
            s.ck(good, "the memory of a long message is exactly large enough", I, "%s bytes into memory of %s" % (fmt(n), fmt(z) if z else "unknown size"), W)
            if good: s.ck(st.facts.get(n[2])[0] >= 0, "the memory of a long message is exactly large enough", I, "size may be negative", W)
            st.rs = s.setbuf(rs, dst, "full" if good else "cut"); return None
        if b in ("malloc", "calloc", "operator new[]", "operator new"):
            z = args[0] if b != "calloc" else args[1] if args[0] == ("const", 1) else args[0]
            st.facts.m.pop(res, None); st.facts.assume(res, "ne", 0)
            st.rs = s.setbuf(rs._replace(sizes=tuple(x for x in rs.sizes if x[0] != res) + ((res, z),)), res, "new"); return None
        if b in ("free", "operator delete[]", "operator delete"):
            k = s.buf(rs, args[0])
            if args[0] == ("const", 0): return None
            s.ck(args[0][0] == "call" and k is not None, "the memory of a long message is freed once", I, "frees %s" % fmt(args[0]), W)
            st.rs = s.setbuf(rs, args[0], None); return None
        if OUT.search(c): return s.out(st, I, W, b, args)
        return None
    def va(s, rs, k, v): return rs._replace(va=tuple([(x, y) for x, y in rs.va if x != k] + [(k, v)]))
    level_ok = True
    def gate(s, st, I, W):
        s.ck(s.valid(st), "a message with an invalid level produces no output", I, "level in %s" % (st.facts.get(s.lvl)[:2] if s.lvl else "?",), W)
        s.ck(st.rs.filt == "pass", "a message below the threshold produces no output", I, "threshold %s" % {None: "not looked at", "low": "not reached", "maybe": "perhaps not reached"}.get(st.rs.filt), W)
    def out(s, st, I, W, b, args):
        rs = st.rs; s.gate(st, I, W)
        k = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3}.get(b); stream = args[k] if k is not None else None
        if stream is None: to = "con"
        elif stream in rs.files: to = "file"
        elif glob(stream) in ("stdout", "stderr"): to = "con"
        else: to = None
        if not s.ck(to is not None, "output goes to an open file", I, "to %s" % fmt(stream), W): return None
        text = {"fprintf": 1, "printf": 0, "fputs": 0, "puts": 0}.get(b)
        fm = args[text] if text is not None else None; nl = None
        if fm is not None and fm[0] == "glob": 
            v = ((s.f.prog.globals.get(fm[1]) or {}).get("init") or {}); v = v.get("str") if isinstance(v, dict) else None
            if v is not None: nl = v.rstrip("\0").endswith("\n")
        if b == "puts": nl = True
        if b in ("fputc", "putc", "putchar"): nl = args[0] == ("const", 10)
        for a in args:
            r = root(a); q = s.buf(rs, r) if r is not None else None
            if q:
                s.ck(q in ("full", "err"), "a message is complete when it is written", I, "text was %s" % {"cut": "cut short", "new": "never formatted"}.get(q, q), W)
                st.rs = rs = rs._replace(lines=rs.lines + ((to, "msg"),) if rs.lines.count((to, "msg")) < 2 else rs.lines)
        if nl and rs.lines.count((to, "nl")) < 2: st.rs = rs._replace(lines=rs.lines + ((to, "nl"),))
        return None
    def exit(s, st, I, W):
        rs = st.rs
        s.ck(not rs.files, "the log file is closed on every path", I, "left open", W)
        s.ck(all(v == "ended" for _, v in rs.va), "an argument list is ended once", I, "not ended", W)
        s.ck(not [1 for b, _ in rs.bufs if b[0] == "call"], "the memory of a long message is freed on every path", I, "leaked", W)
        if rs.lines:
            s.ck(rs.lines.count(("file", "nl")) == 1 and rs.lines.count(("file", "msg")) == 1, "a message is written to the file as one whole line", I, "%d texts, %d ends of line" % (rs.lines.count(("file", "msg")), rs.lines.count(("file", "nl"))), W)
            s.ck(rs.lines.count(("con", "nl")) <= 1 and rs.lines.count(("con", "msg")) == rs.lines.count(("con", "nl")), "a message is printed at most once", I, "", W)
            s.hit["line"] = 1
        elif s.hit.get("open"):
            s.ck(bool(rs.why) or s.invalid(st), "a message is only dropped for a reason", I, "returns without output, level in %s" % (st.facts.get(s.lvl)[:2] if s.lvl else "?",), W)

class Name(R0):
    """file name: the caller's strings are looked at before they are used"""
    def __init__(s, ctx, f): R0.__init__(s, ctx, f); s.n = 0; s.strs = [argx(f, k) for k in range(len(f.args)) if f.args[k][1] == "ptr"]
    def init(s): return frozenset()
    def branch(s, st, t, c, val, W): st.rs = st.rs | {x for x in s.strs if s.filled(st, x)}
    def ck(s, c, I, what, W):
        s.n += 1; s.ctx.check(c, "a missing or empty name is rejected", I.where(), "%s: %s" % (s.f.short(), what), W.trace(), key="name|" + s.f.base)
    def has(s, st, a):
        if st.facts.get(a)[0] > 0 or 0 in st.facts.get(a)[2]: return True
        return False
    def filled(s, st, a):
        for e, (lo, hi, ex) in st.facts.m.items():
            if e[0] == "ld" and (e[2] == a or e[2] == ("idx", a, ("const", 0))) and (lo > 0 or hi < 0 or 0 in ex): return True
            if e[0] == "call" and e[2] == "strlen" and e[3] and e[3][0] == a and (lo > 0 or 0 in ex): return True
        return False
    def keep_exprs(s, rs): return list(s.strs)
    def step(s, st, I, W):
        if I.op == "load":
            a = W.ev(st, I.o[0])
            for x in s.strs:
                if a == x or a[0] == "idx" and a[1] == x:
                    s.ck(s.has(st, x), I, "%s is read" % fmt(x), W)
                    if a[0] == "idx" and a[2][0] == "bin": s.ck(x in st.rs, I, "the last character of %s" % fmt(x), W)
        if I.op == "call" and I.callee and "basic_string" in I.callee:
            args = [W.ev(st, o) for o in I.o]
            if any(member(a) in ("file_path", "file_path_name") for a in args[:1]):
                for x in s.strs: s.ck(s.has(st, x) and x in st.rs, I, "the stored name changes although %s may be missing" % fmt(x), W)
        return None

def run(ctx):
    for nd in ((), ("-DNDEBUG",)):
        P = ctx.program("prim", cppflags=nd)
        # names of the levels: the valid levels are those
        names = set()
        for f in P.fns.values():
            for I in f.all():
                if I.op == "store":
                    a = static_ev(f, I.o[1])
                    if a[0] == "idx" and member(a) == "level_name" and a[2][0] == "const": names.add(a[2][1])
                    elif a[0] == "fld" and member(a) == "level_name": names.add(0)
        n = 0
        while n in names: n += 1
        lv = P.constglob("_ZN7cyclone13vp_log_levelsE")
        ctx.need(1 if lv and lv[0] == "const" else 0, 1, "number of log levels"); lv = lv[1]; ctx.need(len(names), 1, "names of the log levels")
        ctx.check(names >= set(range(lv)), "every level has a name", "DiskLogFile", "%d names of %d levels" % (n, lv)); n = lv
        logs = [f for f in P.fns.values() if any((I.callee or "") == "llvm.va_start" for I in f.calls()) and any(OUT.search(I.callee or "") or (I.callee or "").endswith("fopen") for I in f.calls())]
        ctx.need(len(logs), 1, "logging function")
        hits = {}
        for f in logs + [f for f in P.fns.values() if f not in logs and any(I.op == "store" and member(static_ev(f, I.o[1])) == "level_threshold" and static_ev(f, I.o[0])[0] != "const" for I in f.all())]:
            r = Log(ctx, f, n); r.lvl = next((argx(f, k) for k in range(len(f.args)) if f.args[k][1] == "i32"), None)
            W = Walker(f, r, pure=PUREC); W.run()
            for k, v in r.hit.items(): hits[k] = hits.get(k, 0) + v
        for k in ("open", "line", "va", "a message is complete when it is written", "a message is only dropped for a reason", "a level's name is only looked up for a valid level"): ctx.need(hits.get(k, 0), 1, "logging: " + k)
        m = 0
        for f in P.fns.values():
            if any("basic_string" in (I.callee or "") and I.o and member(static_ev(f, I.o[0])) in ("file_path", "file_path_name") and any(static_ev(f, o)[0] == "arg" for o in I.o[1:]) for I in f.calls()):
                r = Name(ctx, f); Walker(f, r, pure=PUREC).run(); m += r.n
        ctx.need(m, 3, "uses of a caller's file name")
        ctx.cover["logging functions" + ("" if nd else " (assertions on)")] = ", ".join(f.base for f in logs)
    ctx.assumption("memory allocation succeeds; a formatting call reports its outcome as the C library documents")
