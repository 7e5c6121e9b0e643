"""No write to a socket can raise SIGPIPE; what counts as would-block (C25)."""
from evt import *
NOSIG = 0x4000
ENOTSOCK = 88
SEND = {"send": 3, "sendto": 3, "sendmsg": 2, "sendmmsg": 3}      # call -> position of the flags
RAW = {"write", "writev", "pwrite", "pwritev", "sendfile", "splice", "dprintf", "pwrite64"}
AGAIN = {11}

class Pipe(R0):
    keep_locals = True
    def __init__(s, f, ctx, cnt): s.f = f; s.ctx = ctx; s.cnt = cnt; s.name = f.short()
    def init(s): return (None, None, frozenset())            # (fd, result) of the last send without a signal; values of errno read since
    def keep_exprs(s, rs): return [x for x in (rs[0], rs[1]) if x] + list(rs[2])
    def ck(s, c, rule, I, d, W):
        s.cnt[rule] = s.cnt.get(rule, 0) + 1
        s.ctx.check(c, rule, I.where(), "%s: %s" % (s.name, d), W.trace(), key="%s|%s|%s" % (rule, s.name, d))
    def step(s, st, I, W):
        fd, res, errs = st.rs
        if I.op == "load" and res is not None:
            a = W.ev(st, I.o[0])
            if a[0] == "call" and a[2] == "__errno_location": st.rs = (fd, res, errs | {st.mem.get(a) or ("ld", I.i, a)})
            return None
        if I.op != "call": return None
        c = I.callee or ""; args = [W.ev(st, o) for o in I.o]
        r = ("call", I.i, I.callee, tuple(args))
        if c == "cyclone::socket_api::get_lasterror" and res is not None: st.rs = (fd, res, errs | {r}); return None
        if c in SEND:
            fl = args[SEND[c]]
            dgram = c == "sendto" and cst_(args[4]) != 0
            ok = fl[0] == "const" and fl[1] & NOSIG or dgram
            s.ck(bool(ok), "a send to a socket never raises a signal", I, "%s without MSG_NOSIGNAL" % c, W)
            st.rs = (args[0], r, frozenset()) if ok and not dgram else (None, None, frozenset()); return None
        if c in RAW:
            neg = res is not None and st.facts.copy().assume(res, "sge", 0) is False
            known = any(st.facts.copy().assume(e, "ne", ENOTSOCK) is False for e in errs)
            s.ck(res is not None and strip(args[0]) == strip(fd) and neg and known, "a plain write only follows a send that found no socket", I, "%s on a descriptor that may be a socket" % c, W)
        return None

def cst_(e): return e[1] if e[0] == "const" else 0 if e == NULL else None

class Errno(R0):
    """the value the function returns when errno has the given value"""
    def __init__(s, v): s.v = v; s.out = set()
    def init(s): return 0
    def ck(s, *a): pass
    def model(s, st, I, W): return ("const", s.v) if I.callee == "cyclone::socket_api::get_lasterror" else None
    def step(s, st, I, W):
        if I.op == "load":
            a = W.ev(st, I.o[0])
            if a[0] == "call" and a[2] == "__errno_location": st.mem[a] = ("const", s.v)
        return None
    def exit(s, st, I, W):
        v = W.ev(st, I.o[0]); t = W.truth(st, v)
        s.out.add(t)

def run(ctx):
    cnt = {}
    P = ctx.program("prim", cppflags=("-DNDEBUG",))
    n = 0
    for f in P.fns.values():
        if any(I.callee in SEND or I.callee in RAW for I in f.calls()):
            n += 1; Walker(f, Pipe(f, ctx, cnt), pure=PUREV).run()
    ctx.cover["functions that write to descriptors"] = n
    ctx.need(cnt.get("a send to a socket never raises a signal", 0), 2, "sends")
    fs = P.get("cyclone::socket_api::is_lasterror_WOULDBLOCK")
    fs = fs if isinstance(fs, list) else [fs] if fs else []
    ctx.need(len(fs), 1, "the would-block test")
    for f in fs:
        for e in range(1, 134):
            r = Errno(e); Walker(f, r, pure=PUREV).run()
            want = e in AGAIN
            # an interrupted call may be served again as well
            ok = r.out == {want} or e in (4, 115) and r.out <= {True, False}
            ctx.check(ok, "would-block means exactly that the call can be repeated later", f.blocks[0][0].where() if f.blocks else f.file, "%s: errno %d gives %s" % (f.short(), e, sorted(map(str, r.out))), [], key="wouldblock|%d" % e)
