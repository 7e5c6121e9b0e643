"""Typestate analysis of the signal primitive: on every control path of every function that touches a signal the pending flag is
read and written only while the signal's mutex is held, a waiter blocks only after testing the flag clear since it took the
lock or last woke, a success is returned exactly when the flag was seen set and then cleared under the same lock hold, a
failure only after a timed-out block, a clear flag with zero timeout or a busy mutex with zero timeout; a notifier sets the flag
under the lock and wakes a waiter on every path. A disjunctive polyhedral analysis of the timed wait shows that the deadline given
to the kernel is now + timeout with a valid nanosecond part for every timeout."""
from ir import *
from locks import LOCK, UNLOCK, TRY
import num
from num import Num, St, Lin, V, fresh
LEVEL = "other"
SIG = "cyclone::sys_api::signal_"
WAIT = "pthread_cond_wait"; TWAIT = ("pthread_cond_timedwait", "pthread_cond_clockwait"); WAKE = ("pthread_cond_signal", "pthread_cond_broadcast")

def sigfield(e):
    """(kind) of the address of a signal member: 'flag','mutex','cond'"""
    while e[0] in ("idx", "off", "cast"): e = e[1] if e[0] != "cast" else e[2]
    while e[0] == "fld":
        if e[2].startswith(TY + "."): return e[2].split(".")[-1]
        e = e[1]
    return None
TY = "cyclone::sys_api::signal_s"

class Sig:
    """rs = (held, obs, consumed, why, set, woken, stores): obs = last observed flag value since the lock/last wake-up"""
    def __init__(s, ctx, f, flag, kind, bits):
        s.bits = bits
        s.ctx = ctx; s.f = f; s.flag = flag; s.kind = kind; s.n = {}
    def init(s): return (False, None, 0, None, False, False)
    def keep_exprs(s, rs): return [rs[1]] if isinstance(rs[1], tuple) else []
    def ck(s, c, rule, I, what, W):
        s.n[rule] = s.n.get(rule, 0) + 1
        return s.ctx.check(c, rule, I.where(), "%s: %s" % (s.f.short(), what), W.trace(), key="%s|%s" % (rule, s.f.short()))
    def val(s, st, W, obs):
        """0, 1 (= nonzero) or None"""
        if obs is None: return None
        if obs in (0, 1): return obs
        z = W.truth(st, ("cmp", "eq", obs, ("const", 0)))
        if z is None: 
            t = W.truth(st, obs)
            return None if t is None else int(t)
        return 0 if z else 1
    def step(s, st, I, W):
        held, obs, cons, why, setf, woken = st.rs
        op = I.op
        if op in ("load", "store", "atomicrmw", "cmpxchg"):
            a = W.ev(st, I.o[1] if op == "store" else I.o[0])
            if sigfield(a) != s.flag: return None
            s.ck(held, "flag accessed only under the signal's mutex", I, "%s of the pending flag" % op, W)
            if op == "load":
                cur = s.val(st, W, obs)
                e = ("ld", I.i, a)
                if s.bits and not (st.facts.assume(e, "sge", 0) and st.facts.assume(e, "sle", 1)): return []
                if cur is not None: 
                    if not st.facts.assume(e, "eq" if cur == 0 else "ne", 0): return []
                st.rs = (held, e, cons, why, setf, woken)
                return None
            if op == "store":
                v = W.ev(st, I.o[0])
                if v[0] != "const":
                    s.ck(False, "flag holds 0 or 1", I, "a value other than a constant is stored", W); return None
                return s.write(st, I, W, v[1])
            if op == "atomicrmw":
                v = W.ev(st, I.o[1])
                if I.j["rmw"] != "xchg" or v[0] != "const": s.ck(False, "flag holds 0 or 1", I, "read-modify-write %s" % I.j["rmw"], W); return None
                z = st.copy(); x = ("val", I.i)
                z.facts.assume(x, "eq", 0); st.facts.assume(x, "ne", 0)
                z.rs = (held, 0, cons, why, setf, woken); st.rs = (held, 1, cons, why, setf, woken)
                out = []
                cur = s.val(st, W, obs)
                if cur != 1: s.write(z, I, W, v[1], quiet=True); out.append(z)
                if cur != 0: s.write(st, I, W, v[1]); out.append(st)
                return out
            exp = W.ev(st, I.o[1]); new = W.ev(st, I.o[2])
            if exp[0] != "const" or new[0] != "const": s.ck(False, "flag holds 0 or 1", I, "compare-exchange with other values", W); return None
            t = st.copy(); x = ("xv", ("val", I.i), (1,))
            st.facts.assume(x, "eq", 0); t.facts.assume(x, "eq", 1)
            t.rs = (held, int(exp[1] != 0), cons, why, setf, woken)
            s.write(t, I, W, new[1], quiet=exp[1] == 0 and new[1] == 0)
            st.rs = (held, 1 - int(exp[1] != 0), cons, why, setf, woken)
            return [t, st]
        if op != "call": return None
        c = I.callee
        if c in LOCK or c in TRY:
            if sigfield(W.ev(st, I.o[0])) is None: return None
            s.ck(not held, "the mutex is taken once", I, "lock", W)
            if c in LOCK: st.rs = (True, None, cons, why, setf, woken); return None
            call = ("call", I.i, c, tuple(W.ev(st, a) for a in I.o))
            b = st.copy()
            succ = TRY[c] == "bool"
            st.facts.assume(call, "eq" if not succ else "ne", 0); b.facts.assume(call, "ne" if not succ else "eq", 0)
            if not succ and "trylock" in c: b.facts.assume(call, "eq", 16)       # a normal initialised mutex can only be busy
            st.rs = (True, None, cons, why, setf, woken); b.rs = (False, None, cons, "busy", setf, woken)
            return [st, b]
        if c in UNLOCK:
            if sigfield(W.ev(st, I.o[0])) is None: return None
            s.ck(held, "the mutex is released by its holder", I, "unlock", W)
            if why is None and s.val(st, W, obs) == 0: why = "clear"
            st.rs = (False, None, cons, why, setf, woken); return None
        if c == WAIT or c in TWAIT:
            k = [sigfield(W.ev(st, o)) for o in I.o[:2]]
            if k == [None, None]: return None
            ok = k[0] != k[1] and None not in k and s.flag not in k and root(W.ev(st, I.o[0])) == root(W.ev(st, I.o[1]))
            s.ck(ok and held, "waits on the signal's own condition with its own mutex held", I, "wait", W)
            s.ck(s.val(st, W, obs) == 0, "blocks only after the flag was seen clear", I, "the flag is tested between taking the lock or waking up and blocking", W)
            s.ck(cons == 0, "blocks only before consuming", I, "wait", W)
            st.rs = (held, None, cons, None, setf, woken)
            if c in TWAIT:
                b = st.copy(); call = ("call", I.i, c, tuple(W.ev(st, a) for a in I.o))
                st.facts.assume(call, "eq", 0); b.facts.assume(call, "ne", 0)
                b.rs = (held, None, cons, "timeout", setf, woken)
                return [st, b]
            return None
        if c in WAKE:
            if sigfield(W.ev(st, I.o[0])) is None: return None
            s.ck(held or setf, "wakes after or together with setting the flag", I, "wake-up before the flag is set", W)
            st.rs = (held, obs, cons, why, setf, True); return None
        return None
    def write(s, st, I, W, v, quiet=False):
        held, obs, cons, why, setf, woken = st.rs
        if v:
            s.ck(s.kind == "notify", "only notify sets the flag", I, "flag set", W)
            st.rs = (held, 1, cons, why, True, woken)
        else:
            if quiet and obs == 0: st.rs = (held, 0, cons, why, setf, woken); return None
            s.ck(s.kind == "wait", "only a wait clears the flag", I, "flag cleared", W)
            s.ck(s.val(st, W, obs) == 1, "the flag is cleared only after it was seen set under the same lock hold", I, "clear", W)
            s.ck(cons == 0, "a wait consumes one notification", I, "clear", W)
            st.rs = (held, 0, cons + 1, why, setf, woken)
        return None
    def exit(s, st, I, W):
        held, obs, cons, why, setf, woken = st.rs
        if why is None and s.val(st, W, obs) == 0 and cons == 0: why = "clear"
        s.ck(not held, "the mutex is released on return", I, "return", W)
        if s.kind == "notify":
            s.ck(setf and woken, "notify sets the flag and wakes a waiter on every path", I, "set=%s woken=%s" % (setf, woken), W)
        elif s.kind == "wait":
            if not I.o: s.ck(cons == 1, "a wait returns only after consuming a notification", I, "return", W); return
            r = W.truth(st, W.ev(st, I.o[0]))
            s.ck(r is not None, "the result is decided on every path", I, "return", W)
            if r is True: s.ck(cons == 1, "success means one notification was consumed", I, "return true", W)
            elif r is False:
                s.ck(cons == 0, "failure consumes nothing", I, "return false", W)
                ms = ("arg", 1, s.f.args[1][0])
                zero = W.truth(st, ("cmp", "eq", ms, ("const", 0)))
                good = why == "timeout" or (zero is True and why in ("busy", "clear"))
                s.ck(good, "failure only when the time is over", I, "return false (%s)" % (why or "no reason on this path"), W)

def run(ctx):
    P = ctx.program()
    lay = P.types.get(TY)
    if not lay: raise Vanished("type signal_s")
    mt = [x[2] for x in lay if "mutex" in x[3]]; cd = [x[2] for x in lay if "cond" in x[3]]
    fl = [x[2] for x in lay if x[2] not in mt + cd]
    if len(mt) != 1 or len(cd) != 1 or len(fl) != 1: raise Vanished("members of signal_s: %s" % lay)
    flag = fl[0]; W0 = Walker
    touched = 0
    kinds = {"signal_wait": "wait", "signal_timewait": "wait", "signal_notify": "notify"}
    floor = {"wait": 2, "timed": 1, "wake": 1, "flag": 6}; n = dict.fromkeys(floor, 0)
    from locks import static_ev
    def stored(f):
        for I in f.all():
            if I.op == "store" and sigfield(static_ev(f, I.o[1])) == flag: yield I.o[0]
            if I.op == "atomicrmw" and sigfield(static_ev(f, I.o[0])) == flag: yield I.o[1]
            if I.op == "cmpxchg" and sigfield(static_ev(f, I.o[0])) == flag: yield I.o[2]
    bits = all(o[0] == "c" and o[1] in (0, 1) for f in P.fns.values() for o in stored(f))   # the flag only ever holds 0 or 1
    for f in P.fns.values():
        if f.cand and f.ncall > 0 and f.ntaken == 0: continue
        k = None
        for I in f.all():
            ops = I.o if I.op in ("load", "store", "atomicrmw", "cmpxchg", "call") else []
            for o in ops:
                if o[0] == "v" and sigfield(static_ev(f, o)): k = sigfield(static_ev(f, o))
        if k is None: continue
        name = f.base.split("::")[-1]
        touched += 1
        if f.base == SIG + "create":
            class Create:
                def init(s): return (None, False, False)
                def step(s, st, I, W):
                    fl, m, c = st.rs
                    if I.op == "store" and sigfield(W.ev(st, I.o[1])) == flag:
                        v = W.ev(st, I.o[0]); fl = v[1] if v[0] == "const" else "?"
                    if I.op == "call" and I.callee == "pthread_mutex_init": m = True
                    if I.op == "call" and I.callee == "pthread_cond_init": c = True
                    if I.op == "call" and re.match(r"llvm\.memset|calloc$", I.callee or "") and W.ev(st, I.o[1]) == ("const", 0): fl = 0
                    st.rs = (fl, m, c)
                def exit(s, st, I, W):
                    ctx.check(st.rs == (0, True, True), "a new signal has no notification pending", I.where(), "signal_create: flag=%s mutex=%s cond=%s" % st.rs, W.trace())
            Walker(f, Create()).run(); continue
        if f.base == SIG + "destroy":
            ctx.check(not any(I.op in ("load", "store") and sigfield(static_ev(f, I.o[1] if I.op == "store" else I.o[0])) == flag for I in f.all()), "flag accessed only under the signal's mutex", f.file, "signal_destroy"); continue
        R = Sig(ctx, f, flag, kinds.get(name, "other"), bits)
        W = Walker(f, R).run(); ctx.count("abstract states", W.visited)
        n["wait"] += sum(1 for _ in f.calls(lambda I: I.callee == WAIT or I.callee in TWAIT)); n["wake"] += sum(1 for _ in f.calls(lambda I: I.callee in WAKE))
        n["timed"] += sum(1 for _ in f.calls(lambda I: I.callee in TWAIT))
        n["flag"] += sum(1 for I in f.all() if I.op in ("load", "store", "atomicrmw", "cmpxchg") and sigfield(static_ev(f, I.o[1] if I.op == "store" else I.o[0])) == flag)
        if name == "signal_notify" and not any(f.calls(lambda I: I.callee in WAKE)): ctx.bad("notify sets the flag and wakes a waiter on every path", f.file, "signal_notify never wakes a waiter")
        if name in ("signal_wait",) and not any(f.calls(lambda I: I.callee == WAIT)): ctx.bad("blocks while the flag is clear", f.file, "signal_wait never blocks")
    for b in ("wait", "timewait", "notify", "create", "destroy"): P.one(SIG + b)
    ctx.need(touched, 5, "functions that touch a signal"); ctx.need(n["flag"], 4, "flag accesses")
    ctx.cover.update(n)
    if n["timed"]: deadline(ctx, P, TWAIT)

def clock_model(now):
    """gettimeofday / clock_gettime write the current time; now = dict clock -> ns"""
    def put(E, st, p, I, sub, clk):
        s = V(fresh("sec")); u = V(fresh("sub")); c = st.cons
        c.add(s); c.add(-s + (1 << 33)); c.add(u); c.add(-u + (999999 if sub == 1000 else 999999999))
        for off, v in ((0, s), (8, u)):
            for s2 in E.store(st, ("p", p[1], p[2] + off), ("i", v, 64), I, 8): st = s2
        st.g["now.%s" % clk] = s * 1000000000 + u * sub
        return st
    def gtod(E, st, I, a): return [(put(E, st, a[0], I, 1000, 0), ("i", Lin(0), 32))]
    def cgt(E, st, I, a):
        if not a[0][1].is_const(): raise Vanished("clock id")
        return [(put(E, st, a[1], I, 1, a[0][1].c), ("i", Lin(0), 32))]
    return [("gettimeofday", gtod), ("clock_gettime", cgt)]

def deadline(ctx, P, waits):
    f = P.one(SIG + "timewait"); seen = []
    def sink(rule, where, detail, trace): ctx.bad(rule, where, detail, trace, key="%s|timewait" % rule)
    # condition variables wait on the realtime clock unless an attribute says otherwise
    clk = 0
    def any32(E, st, I, a): return [(st, E.unknown(st, I.ty, "ret"))]
    def tw(E, st, I, a):
        ts = a[2] if I.callee == "pthread_cond_timedwait" else a[3]
        out = []
        for s, sec in [(x, v) for x, w in E.load(st, ts, "i64", I, 8) for x, v in E.rep(x, w, True)]:
            for s2, ns in [(x, v) for x, w in E.load(s, ("p", ts[1], ts[2] + 8), "i64", I, 8) for x, v in E.rep(x, w, True)]:
                now = s2.g.get("now.%d" % clk)
                seen.append(1)
                E.oblige(s2, [ns, -ns + 999999999], "deadline has a valid nanosecond part", I, "timed wait")
                if now is None: E.report(s2, "deadline is now plus the timeout", I, "no reading of the clock the condition waits on")
                else:
                    for s3, ms in E.rep(s2, s2.env[("a", 1)], True):
                        if s3.assume(ms):
                            d = sec * 1000000000 + ns - now - ms * 1000000
                            E.oblige(s3, [d, -d + 1000000], "deadline is now plus the timeout", I, "for every non-negative timeout")
                out.append((s2, E.unknown(s2, "i32", "ret")))
        return out
    models = clock_model(None) + [("pthread_cond_timedwait", tw), ("pthread_cond_clockwait", tw), (re.compile(r"^(pthread_|cyclone::sys_api::mutex_|cyclone::disk_log|cyclone::sys_api::thread_yield)"), any32)]
    E = Num(f, sink, models, name="signal_timewait")
    st = St()
    E.newblk(st, "sig", Lin(256), "obj"); st.env[("a", 0)] = ("p", "sig", Lin(0))
    ms = V(fresh("ms")); st.cons.add(ms + (1 << 31)); st.cons.add(-ms + (1 << 31) - 1); st.env[("a", 1)] = ("i", ms, 32)
    E.onload = lambda st, p, ty, I: [(st, E.unknown(st, ty, "flag"))]
    E.ranks = lambda: None        # blocking loop: progress is the scheduler's
    try: E.run(st)
    except num.Refuted: pass
    finally: num.disarm()
    for k, okk in E.seen_obl.items():
        if okk: ctx.ok(k[0], f.ins[k[1]].where() if k[1] in f.ins else f.file, k[2])
    ctx.need(len(seen), 1, "abstract states at the timed wait")
