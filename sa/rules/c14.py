"""Timers.

Arithmetic: register_timer_event is interpreted with a symbolic number of
milliseconds over the whole 32-bit range; at every timerfd_settime the start
time is relative, the first expiry and the interval are each exactly
ms/1000 seconds and (ms%1000)*1000000 nanoseconds and the nanoseconds are in
range.  Ownership: on every path the timer object and the descriptor are either
kept together in the slot (object as the slot's parameter, descriptor as its
descriptor, the dispatch wrapper as its read callback, the caller's callback
and parameter in the object) or released exactly once; the descriptor is
created non-blocking and close-on-exec.  Deletion releases both exactly once.
Dispatch: the wrapper consumes a full expiry count from the event's own
descriptor before the user callback runs and passes the event's own id and the
timer's own parameter."""
from evt import *
import num
from num import Num, St
from poly import Lin, V, fresh
from rules.c10 import Del
LEVEL = "other"
NONBLOCK, CLOEXEC = 0o4000, 0o2000000

TPURE = re.compile(PUREV.pattern + r"|^timerfd_(create|settime)$|^operator new|^cyclone::disk_log|^llvm\.memset|^llvm\.memcpy")

class DelT(Del):
    def ck(s, c, rule, I, what, W):
        if "timer" not in rule and "descriptor" not in rule: return c
        return Del.ck(s, c, rule, I, what, W)

class Own(R0):
    # rs: (obj expr, deleted, fd expr, closed, cb wired (slot expr), user cb, user param, param slot, fd slot, armed)
    def __init__(s, ctx, f, wrappers): R0.__init__(s, ctx, f); s.wr = wrappers
    def init(s): return (None, 0, None, 0, None, False, False, None, None, False, None)
    def keep_exprs(s, rs): return [x for x in (rs[0], rs[2]) if x]
    def step(s, st, I, W):
        ob, de, fd, cl, cb, ucb, up, ps, fs, armed, tests = st.rs
        if I.op == "store":
            a = W.ev(st, I.o[1]); v = W.ev(st, I.o[0])
            m, o = fieldof(a, TM)
            if m == "param" and ob is not None and o == ob:
                st.rs = (ob, de, fd, cl, cb, ucb, strip(v) == argx(s.f, 2), ps, fs, armed, tests); return None
            m, o = chfield(a)
            if m == "param" and o and o[0] == "slot": st.rs = (ob, de, fd, cl, cb, ucb, up, v == ob, fs, armed, tests)
            elif m == "fd" and o and o[0] == "slot": st.rs = (ob, de, fd, cl, cb, ucb, up, ps, v == fd, armed, tests)
            return None
        if I.op != "call": return None
        c = I.callee or ""; args = [W.ev(st, o) for o in I.o]
        if c == "operator new":
            n = args[0]
            s.ck(ob is None, "one timer object per timer", I, "allocation", W)
            e = ("call", I.i, c, tuple(args)); st.facts.assume(e, "ne", 0)
            st.rs = (e, 0) + st.rs[2:]
        elif c == "operator delete":
            s.ck(ob is not None and args[0] == ob, "only the timer's own object is deleted", I, fmt(args[0]), W)
            st.rs = (ob, de + 1) + st.rs[2:]
        elif c == "timerfd_create":
            s.hit["create"] = 1
            s.ck(args[0][0] == "const" and args[0][1] in (1, 7), "timers run on a monotonic clock", I, "clock %s" % fmt(args[0]), W)
            fl = args[1][1] if args[1][0] == "const" else 0
            s.ck(fl & NONBLOCK, "the descriptor is non-blocking", I, "flags 0%o" % fl, W)
            s.ck(fl & CLOEXEC, "the descriptor is close-on-exec", I, "flags 0%o" % fl, W)
            e = ("call", I.i, c, tuple(args)); b = st.copy()
            st.rs = (ob, de, e, 0) + st.rs[4:]; st.facts.assume(e, "sge", 0)
            b.rs = (ob, de, e, 0) + b.rs[4:]; b.facts.assume(e, "slt", 0)
            return [st, b]
        elif c in ("cyclone::socket_api::close_socket", "close"):
            s.ck(fd is not None and strip(args[0]) == strip(fd), "only the timer's own descriptor is closed", I, fmt(args[0]), W)
            st.rs = st.rs[:3] + (cl + 1,) + st.rs[4:]
        elif c == "timerfd_settime":
            s.ck(fd is not None and strip(args[0]) == strip(fd), "the timer's own descriptor is armed", I, fmt(args[0]), W)
            s.ck(fd is not None and st.facts.get(fd)[0] >= 0, "only a descriptor that was created is armed", I, "armed", W)
            s.ck(args[1] == ("const", 0), "the first expiry is relative", I, "flags %s" % fmt(args[1]), W)
            st.rs = st.rs[:9] + (True,) + st.rs[10:]
        elif re.search(r"^std::function<.*>::(operator=|function)(<.*>)?$", c) and len(args) > 1:
            m, o = chfield(args[0])
            if m == "on_read" and o and o[0] == "slot":
                v = args[1]
                if v[0] == "alloca": v = next((y for x, y in (tests or ()) if x == strip(v)), v)
                st.rs = st.rs[:4] + (v[0] == "glob" and v[1] in s.wr,) + st.rs[5:]; return None
            m, o = fieldof(args[0], TM)
            if m == "on_timer":
                st.rs = st.rs[:5] + (strip(args[1]) == argx(s.f, 3) and o == ob,) + st.rs[6:]; return None
            if args[0][0] == "alloca": st.rs = st.rs[:10] + (frozenset(tests or ()) | {(strip(args[0]), args[1])},)
        return None
    def exit(s, st, I, W):
        ob, de, fd, cl, cb, ucb, up, ps, fs, armed, tests = st.rs
        r = W.ev(st, I.o[0])
        made = fd is not None and st.facts.get(fd)[0] >= 0
        if r[0] == "const" and r[1] in (-1, (1 << 32) - 1):
            s.hit["fail"] = 1
            s.ck(de == (1 if ob is not None else 0), "a failed timer releases its object exactly once", I, "deleted %d times" % de, W)
            s.ck(cl == (1 if made else 0), "a failed timer releases its descriptor exactly once", I, "closed %d times" % cl, W)
            return
        s.hit["ok"] = 1
        s.ck(made, "a timer has a descriptor", I, "return", W)
        s.ck(de == 0 and cl == 0, "a running timer keeps its descriptor and object", I, "deleted %d, closed %d" % (de, cl), W)
        s.ck(ps is True and fs is True, "the slot owns the timer's object and descriptor", I, "return", W)
        s.ck(cb is True, "the slot dispatches through the timer wrapper", I, "return", W)
        s.ck(ucb and up, "the timer keeps the caller's callback and parameter", I, "return", W)
        s.ck(armed, "a timer is armed", I, "return", W)

class Wrap(R0):
    # rs: consumed
    def init(s): return (False, 0)
    def step(s, st, I, W):
        if I.op != "call": return None
        c = I.callee or ""; args = [W.ev(st, o) for o in I.o]
        if c in ("cyclone::socket_api::read", "read"):
            s.ck(strip(args[0]) == argx(s.f, 1), "the expiry is consumed from the event's own descriptor", I, fmt(args[0]), W)
            s.ck(args[2][0] == "const" and args[2][1] >= 8, "a whole expiry count is read", I, "%s bytes" % fmt(args[2]), W)
            st.rs = (True, st.rs[1])
        elif FCALL.search(c):
            s.hit["call"] = 1
            s.ck(st.rs[0], "the expiry is consumed before the callback runs", I, "callback", W)
            s.ck(st.rs[1] == 0, "one callback per dispatch", I, "callback", W)
            s.ck(strip(args[1]) == argx(s.f, 0), "the callback gets the timer's own id", I, fmt(args[1]), W)
            p = args[2]
            s.ck(p[0] == "ld" and fieldof(p[2], TM) == ("param", argx(s.f, 3)), "the callback gets the timer's own parameter", I, fmt(p), W)
            st.rs = (st.rs[0], st.rs[1] + 1)
        return None
    def exit(s, st, I, W):
        s.ck(st.rs[0], "every dispatch consumes the expiry", I, "return", W)

def interval(ctx, P, f):
    seen = []
    def sink(rule, where, detail, trace): ctx.bad(rule, where, detail, trace, key="%s|interval" % rule)
    def settime(E, st, I, a):
        seen.append(1)
        sts = [(st, ())]
        for off in (0, 8, 16, 24):
            nx = []
            for s, vs in sts:
                for x, w in E.load(s, ("p", a[2][1], a[2][2] + off), "i64", I, 8):
                    for y, v in E.rep(x, w, True): nx.append((y, vs + (v,)))
            sts = nx
        out = []
        for s, (isec, insec, vsec, vnsec) in sts:
            for s2, ms in E.rep(s, s.env[("a", 1)], False):
                E.oblige(s2, [vnsec, -vnsec + 999999999, insec, -insec + 999999999], "nanoseconds are in range", I, "timerfd_settime")
                d = vsec * 1000000000 + vnsec - ms * 1000000; E.oblige(s2, [d, -d], "the first expiry is the requested time", I, "timerfd_settime")
                d = isec * 1000000000 + insec - ms * 1000000; E.oblige(s2, [d, -d], "the interval is the requested time", I, "timerfd_settime")
                out.append((s2, E.unknown(s2, "i32", "ret")))
        return out
    def elem(E, st, I, a): return [(st, ("p", "slot", Lin(0)))]
    def any_(E, st, I, a): return [(st, E.unknown(st, I.ty, "ret") if I.ty not in ("void", "ptr") else None if I.ty == "void" else ("p", "slot", Lin(0)))]
    models = [("timerfd_settime", settime), (re.compile(r"vector<cyclone::Looper::channel_s.*::(operator\[\]|at|data|front|back|begin)$"), elem), (re.compile(r"^(?!llvm\.|memset|memcpy)"), any_)]
    E = Num(f, sink, models, name=f.short()); st = St()
    E.newblk(st, "lp", Lin(1024), "obj"); st.env[("a", 0)] = ("p", "lp", Lin(0))
    for k in range(2, len(f.args)): st.env[("a", k)] = E.unknown(st, f.args[k][1], "a%d" % k) if f.args[k][1] != "ptr" else ("p", "slot", Lin(0))
    ms = V(fresh("ms")); st.cons.add(ms); st.cons.add(-ms + (1 << 32) - 1); st.env[("a", 1)] = ("i", ms, 32)
    E.newblk(st, "slot", Lin(4096), "obj"); E.UNROLL = 0
    E.access = lambda *a: True
    E.onload = lambda st, p, ty, I: None if p[1] not in ("slot", "lp") else [(st, E.unknown(st, ty, "u") if ty != "ptr" else ("p", "slot", Lin(0)))]
    E.ranks = lambda: None
    try: E.run(st)
    except num.Refuted: pass
    finally: num.disarm()
    for k, okk in E.seen_obl.items():
        if okk: ctx.ok(k[0], f.ins[k[1]].where() if k[1] in f.ins else f.file, k[2])
    ctx.need(len(seen), 1, "abstract states that arm a timer")

def run(ctx):
    P = ctx.program()
    wr = {}
    for f in roots(P):
        if f.file.startswith("sample"): continue
        for I in f.all():
            if I.op == "call" and FCALL.search(I.callee or "") and len(I.o) == 3 and re.search(r"cye_looper", f.file): wr[f.name] = f
    ctx.need(len(wr), 1, "timer dispatch wrappers")
    for f in wr.values():
        R = Wrap(ctx, f); Walker(f, R, pure=PUREV).run(); ctx.need(R.hit.get("call", 0), 1, "timer callback invocations")
    f = P.one("cyclone::Looper::register_timer_event")
    R = Own(ctx, f, set(wr)); W = Walker(f, R, pure=TPURE).run(); ctx.count("abstract states", W.visited)
    for k in ("create", "fail", "ok"): ctx.need(R.hit.get(k, 0), 1, "register_timer_event: " + k)
    interval(ctx, P, f)
    f = P.one("cyclone::Looper::delete_event")
    Walker(f, DelT(ctx, f), pure=PUREV).run()
    ctx.assumption("timerfd semantics: a read of at least 8 bytes consumes all pending expirations; an all-zero first expiry (0 ms) disarms the timer, which is what was requested")
