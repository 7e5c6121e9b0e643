"""Descriptors opened by library functions are closed once, returned or handed over on every path (C20)."""
from evt import *
from net import NPURE, cst
INTSRC = {"socket", "accept", "accept4", "epoll_create", "epoll_create1", "timerfd_create", "open", "open64", "openat", "eventfd", "dup", "creat", "signalfd", "inotify_init", "memfd_create"}
PTRSRC = {"fopen", "fopen64", "fdopen", "tmpfile", "popen", "opendir"}
ARRSRC = {"pipe": 0, "pipe2": 0, "socketpair": 3}
CLOSE = {"close": 0, "fclose": 0, "pclose": 0, "closedir": 0}
FPURE = re.compile(NPURE.pattern + r"|^__errno_location$|^cyclone::disk_log$|^cyclone::socket_api::get_lasterror$")
STDADD = re.compile(r"::(push_back|emplace_back|emplace|insert|push|push_front|emplace_front|operator=|operator\[\]|reset|swap|assign)(<.*>)?$")
BORROW = re.compile(r"^(setsockopt|getsockopt|bind|listen|connect|fcntl|fcntl64|ioctl|select|poll|getsockname|getpeername|shutdown|fprintf|vfprintf|fputs|fwrite|fread|fgets|fflush|fseek|ftell|fputc|fileno|epoll_ctl|epoll_wait|timerfd_settime|read|write|readv|writev|send|recv|sendto|recvfrom|sendmsg|printf|snprintf|"
                    r"fopen|feof|ferror|setvbuf)$|^cyclone::(socket_api|sys_api)::|^cyclone::disk_log$|^cyclone::Looper::(register_event|_update|_poll)|^cyclone::Looper_\w+::_")

def calloca(a):
    while a[0] in ("fld", "idx", "off", "cast"): a = a[2] if a[0] == "cast" else a[1]
    return a[1] if a[0] == "alloca" else None

class Fd(R0):
    keep_locals = True
    # state: tuple of (value, status, carriers); status: '?' may be invalid, 'open', 'inv', 'closed', 'gone'
    def __init__(s, f, sink, srcs, closers):
        s.f = f; s.sink = sink; s.srcs = srcs; s.closers = closers; s.hit = {}; s.name = f.short(); s.returned = False; s.members = set()
    def init(s): return ()
    def keep_exprs(s, rs): return [v for v, _, _ in rs]
    def keepmem(s, a): return calloca(a) is not None
    def ck(s, c, rule, I, what, W):
        s.hit[rule] = s.hit.get(rule, 0) + 1
        s.sink(c, rule, I.where(), "%s: %s" % (s.name, what), W)
    def sub(s, st, v, **kw):
        out = []
        for x, stt, ca in st.rs:
            if x == v: stt = kw.get("status", stt); ca = kw.get("carriers", ca)
            out.append((x, stt, ca))
        st.rs = tuple(out)
    def find(s, st, e):
        e2 = strip(e)
        for x in st.rs:
            if strip(x[0]) == e2: return x
        return None
    def carried(s, st, a):
        """the descriptor an argument refers to: its value, or the local object at this address holds it"""
        r = s.find(st, a)
        if r: return r
        k = calloca(a)
        if k is None: return None
        v = st.mem.get(a)
        if v is not None and s.find(st, v): return s.find(st, v)
        for x in st.rs:
            if k in x[2] and a[0] == "alloca" or k in x[2]: return x
        return None
    def invalid(s, st, v):
        ptr = v[0] == "call" and v[2] in PTRSRC
        b = st.facts.copy()
        if ptr: return b.assume(v, "ne", 0) is False
        return b.assume(v, "sgt", -1) is False or st.facts.copy().assume(v, "ne", -1) is False
    def valid(s, st, v):
        if v[0] == "call" and v[2] in PTRSRC: return st.facts.copy().assume(v, "eq", 0) is False
        return st.facts.copy().assume(v, "eq", -1) is False
    def open(s, st, v, I, W):
        old = s.find(st, v)
        if old: s.over(st, old, I, W)
        s.hit["source"] = s.hit.get("source", 0) + 1
        st.rs = tuple(x for x in st.rs if x[0] != v) + ((v, "?", frozenset()),)
    def over(s, st, x, I, W):
        if x[1] in ("?", "open"):
            s.ck(s.invalid(st, x[0]), "a descriptor is closed or handed over before it is forgotten", I, "the one opened by %s is lost" % (x[0][2] if x[0][0] == "call" else fmt(x[0])), W)
    def step(s, st, I, W):
        if I.op == "store":
            v = W.ev(st, I.o[0]); a = W.ev(st, I.o[1]); r = s.find(st, v)
            if r and v[0] != "const":
                k = calloca(a)
                if k is None:
                    s.use(st, r, I, W, "stored", False)
                    n = [x[2] for x in subexprs(a) if x[0] == "fld"]
                    s.members.add(n[0] if n else fmt(a)); s.gone(st, r)
                else: s.sub(st, r[0], carriers=r[2] | {k})
            return None
        if I.op != "call": return None
        c = I.callee or ""; args = [W.ev(st, o) for o in I.o]
        if c == "fcntl" or c == "fcntl64":
            if len(args) > 1 and cst(args[1]) in (0, 1030): s.open(st, ("call", I.i, I.callee, tuple(args)), I, W); return None
        if c in INTSRC or c in PTRSRC or c in s.srcs:
            for a in args: s.use(st, s.find(st, a), I, W, "passed to " + c.split("::")[-1], True)
            v = ("call", I.i, I.callee, tuple(args)); st.facts.m.pop(v, None)
            s.open(st, v, I, W); return None
        if c in ARRSRC:
            a = args[ARRSRC[c]]
            if calloca(a) is None: s.members |= {x[2] for x in subexprs(a) if x[0] == "fld"}; s.hit["source"] = s.hit.get("source", 0) + 1
            return None
        if c in s.closers:
            for k in s.closers[c]:
                if k < len(args):
                    r = s.carried(st, args[k]) if s.find(st, args[k]) is None else s.find(st, args[k])
                    if r:
                        s.ck(r[1] in ("?", "open"), "a descriptor is closed once", I, "closed again" if r[1] == "closed" else "closed although it was handed over", W)
                        s.ck(s.valid(st, r[0]), "a failed open is never used as a descriptor", I, "closed without looking whether it was opened", W)
                        s.sub(st, r[0], status="closed")
            return None
        std = c.startswith(("std::", "__gnu_cxx::", "void std::", "operator"))
        for k, a in enumerate(args):
            r = s.carried(st, a)
            if not r: continue
            direct = s.find(st, a) is not None
            if std and not re.search(r"make_shared|make_unique|_Construct|construct<", c):
                if STDADD.search(c) and k > 0:
                    if calloca(args[0]) is None: s.use(st, r, I, W, "stored", True); s.gone(st, r, W)
                    else: s.sub(st, r[0], carriers=r[2] | {calloca(args[0])})
                elif calloca(args[0]) is not None and k > 0: s.sub(st, r[0], carriers=s.find(st, r[0])[2] | {calloca(args[0])})
                continue
            if c.startswith("llvm."):
                if k == 1 and c.startswith("llvm.mem") and calloca(args[0]) is not None: s.sub(st, r[0], carriers=s.find(st, r[0])[2] | {calloca(args[0])})
                continue
            if BORROW.search(c):
                if direct: s.use(st, r, I, W, "passed to " + c.split("::")[-1], "disk_log" not in c)
                continue
            if direct or r[1] in ("?", "open"):
                if not I.callee and not direct: continue
                if not direct and not re.search(r"make_shared|make_unique|onstruct|::(\w+)::\1$|send_|push", c): continue
                s.use(st, r, I, W, "handed to " + c.split("::")[-1], True); s.gone(st, s.find(st, r[0]), W)
        return None
    def gone(s, st, r, W=None): s.sub(st, r[0], status="gone" if r[1] != "closed" else "closed")
    def use(s, st, r, I, W, what, need):
        if not r: return
        s.ck(r[1] != "closed", "a closed descriptor is never used again", I, what, W)
        if need and r[1] != "closed": s.ck(s.valid(st, r[0]), "a failed open is never used as a descriptor", I, what + " without looking whether it was opened", W)
    def exit(s, st, I, W):
        rv = W.ev(st, I.o[0]) if I.o else None
        for x in st.rs:
            if rv is not None and strip(rv) == strip(x[0]):
                s.returned = True
                s.ck(x[1] != "closed" or s.invalid(st, x[0]), "a descriptor that is returned is open", I, "closed before it is returned", W)
                continue
            if x[1] in ("?", "open"): s.over(st, x, I, W)
            else: s.ck(True, "a descriptor is closed or handed over before it is forgotten", I, x[1], W)

class Closer(R0):
    """which arguments a function closes on every path"""
    def __init__(s, f, closers): s.f = f; s.closers = closers; s.all = None
    def init(s): return frozenset()
    def step(s, st, I, W):
        if I.op == "call" and I.callee in s.closers:
            for k in s.closers[I.callee]:
                a = strip(W.ev(st, I.o[k]))
                if a[0] == "arg": st.rs = st.rs | {a[1]}
        return None
    def exit(s, st, I, W): s.all = st.rs if s.all is None else s.all & st.rs

class Dtor(R0):
    """descriptors kept in members of the object: closed once each, unless invalid"""
    keep_locals = True
    def __init__(s, f, sink, closers, mem): s.f = f; s.sink = sink; s.closers = closers; s.memb = mem; s.hit = {}; s.name = f.short()
    def init(s): return ()
    def keepmem(s, a): return any(x[0] == "fld" and x[2] in s.memb for x in subexprs(a))
    def ck(s, c, rule, I, what, W):
        s.hit[rule] = s.hit.get(rule, 0) + 1; s.sink(c, rule, I.where(), "%s: %s" % (s.name, what), W)
    def slot(s, a):
        n, ix = None, 0
        while a[0] in ("fld", "idx", "off", "cast"):
            if a[0] == "cast": a = a[2]; continue
            if a[0] == "fld":
                if a[2] in s.memb: return (a[2], ix)
            if a[0] == "idx": ix += cst(a[2]) or 0
            a = a[1]
        return None
    def step(s, st, I, W):
        if I.op == "load":
            k = s.slot(W.ev(st, I.o[0]))
            if k and not any(x[0] == k for x in st.rs): st.rs = st.rs + ((k, ("ld", I.i, W.ev(st, I.o[0])), 0),)
            elif k: 
                v = next(x[1] for x in st.rs if x[0] == k); st.mem[W.ev(st, I.o[0])] = v
            return None
        if I.op == "call" and I.callee in s.closers:
            for p in s.closers[I.callee]:
                e = strip(W.ev(st, I.o[p]))
                st.rs = tuple((k, v, n + (strip(v) == e)) for k, v, n in st.rs)
        return None
    def keep_exprs(s, rs): return [v for _, v, _ in rs]
    def exit(s, st, I, W):
        for m, n in sorted(s.memb.items()):
            for i in range(n):
                r = next((x for x in st.rs if x[0] == (m, i)), None)
                inv = r is not None and st.facts.copy().assume(r[1], "ne", -1) is False
                c = r[2] if r else 0
                s.ck(c == (0 if inv else 1), "an object closes each descriptor it owns exactly once when it ends", I, "%s[%d] closed %d times%s" % (m.replace("cyclone::", ""), i, c, ", although it is invalid" if inv else ""), W)

class Timer(R0):
    """the loop closes a timer's descriptor when its event is deleted, and no other"""
    keep_locals = True
    def __init__(s, f, sink, closers, timer): s.f = f; s.sink = sink; s.closers = closers; s.timer = timer; s.hit = {}; s.name = f.short()
    def init(s): return (0, 0)
    def ck(s, c, rule, I, what, W):
        s.hit[rule] = s.hit.get(rule, 0) + 1; s.sink(c, rule, I.where(), "%s: %s" % (s.name, what), W)
    def step(s, st, I, W):
        n, look = st.rs
        if I.op == "load":
            m, sl = chfield(W.ev(st, I.o[0]))
            if m == "timer": st.mem[W.ev(st, I.o[0])] = ("const", int(s.timer)); st.rs = (n, 1)
        if I.op == "call" and I.callee in s.closers:
            for p in s.closers[I.callee]:
                e = W.ev(st, I.o[p])
                if e[0] == "ld" and chfield(e[2])[0] == "fd":
                    s.ck(s.timer, "only a timer's descriptor belongs to the loop", I, "the descriptor of a registered event is closed", W); st.rs = (min(n + 1, 2), look)
        if I.op == "store":
            m, sl = chfield(W.ev(st, I.o[1]))
            if m == "next" and s.timer: s.ck(n == 1, "the loop closes a timer's descriptor when its event is deleted", I, "the slot is freed with the descriptor closed %d times" % n, W)
        return None

def run(ctx, skip=()):
    P = ctx.program("prim", cppflags=("-DNDEBUG",))
    hits = {}
    def sink(ok, rule, where, detail, W):
        hits[rule] = hits.get(rule, 0) + 1
        ctx.check(ok, rule, where, detail, W.trace(), key="%s|%s" % (rule, detail.split(": ")[0] + "|" + detail.split(": ", 1)[-1]))
    quiet = lambda *a: None
    closers = {k: {v} for k, v in CLOSE.items()}
    lib = [f for f in P.fns.values() if f.blocks]
    for _ in range(3):
        for f in lib:
            if f.base in closers or not any(I.callee in closers for I in f.calls()): continue
            r = Closer(f, closers); Walker(f, r, pure=FPURE).run()
            if r.all: closers[f.base] = set(r.all)
    srcs = set()
    def srcfn(f): return any(I.callee in INTSRC or I.callee in PTRSRC or I.callee in ARRSRC or I.callee in srcs for I in f.calls())
    while True:
        n0 = len(srcs)
        for f in lib:
            if f.base in srcs or not srcfn(f): continue
            r = Fd(f, quiet, srcs, closers); Walker(f, r, pure=FPURE).run()
            if r.returned: srcs.add(f.base)
        if len(srcs) == n0: break
    members = {}; nf = 0; ns = 0
    R = roots(P)
    for f in R:
        if not f.blocks or not srcfn(f) or any(f.base.startswith(x) for x in skip): continue
        if f.cand and f.ncall == 0 and f.ntaken == 0: continue
        r = Fd(f, sink, srcs, closers); Walker(f, r, pure=FPURE).run(); nf += 1
        ns += r.hit.get("source", 0)
        for m in r.members: members.setdefault(m, set()).add(f.base)
    # owners: members that receive a descriptor
    ctx.cover["functions that open descriptors"] = nf; ctx.cover["opened descriptors followed"] = ns
    ctx.cover["functions returning a new descriptor"] = ", ".join(sorted(srcs)); ctx.cover["functions that close their argument"] = ", ".join(sorted(closers))
    ctx.cover["members that receive a descriptor"] = ", ".join(sorted(members))
    ctx.need(nf, 6, "functions that open descriptors"); ctx.need(ns, 8, "opened descriptors")
    owners = {}
    for m in members:
        cls, fld = m.rsplit(".", 1)
        if cls == CH: continue
        owners.setdefault(cls, {})[m] = 1
        for f in lib:
            for I in f.all():
                if I.op == "call" and I.callee in ARRSRC and any(x[0] == "fld" and x[2] == m for x in subexprs(static_ev(f, I.o[ARRSRC[I.callee]]))): owners[cls][m] = 2
    nd = 0
    for cls, mem in sorted(owners.items()):
        ds = [f for f in lib if f.base == cls + "::~" + cls.split("::")[-1] and not any(I.callee == f.base for I in f.calls())]
        ctx.need(len(ds), 1, "destructor of " + cls)
        for f in ds:
            r = Dtor(f, sink, closers, mem); Walker(f, r, pure=FPURE).run(); nd += 1
    ctx.need(nd, 2, "owners of descriptors")
    td = [f for f in lib if f.base == LP + "::delete_event"]
    ctx.need(len(td), 1, "deletion of events")
    for f in td:
        for t in (True, False):
            r = Timer(f, sink, closers, t); Walker(f, r, pure=FPURE).run()
        ctx.need(hits.get("the loop closes a timer's descriptor when its event is deleted", 0), 1, "deletions of timers")
    return hits
