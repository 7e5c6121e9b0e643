"""Typestate and ownership analysis of the thread bookkeeping object over its creators, the entry function handed to std::thread,
and every function that joins: on each control path the object is completely initialised before the thread is resumed, the entry waits
before reading it and runs the user function exactly once, a detached thread's creator does not touch it after resuming, the join releases it
exactly once after std::thread::join and releases nothing when the timed wait fails, the detached thread releases it after its entry function returned,
both signals are destroyed exactly once, and no path accesses it after its release. Every other function of the program is shown neither to write nor to release it."""
from ir import *
from locks import static_ev, UNLOCK
LEVEL = "other"
T = "cyclone::sys_api::thread_data_s"
S = "cyclone::sys_api::signal_"

def tdf(e):
    """field of the thread object an expression addresses or was loaded from"""
    while True:
        k = e[0]
        if k == "fld":
            if e[2].startswith(T + "."): return e[2].split(".")[-1]
            e = e[1]
        elif k in ("idx", "off"): e = e[1]
        elif k == "cast": e = e[2]
        else: return None

def loaded(e):
    """field of the thread object whose value this is"""
    while e[0] == "cast": e = e[2]
    return tdf(e[2]) if e[0] == "ld" else None

DTOR = re.compile(r"::~\w+$")

class Base:
    def __init__(s, ctx, f, fields): s.ctx = ctx; s.f = f; s.F = fields; s.n = 0
    def ck(s, c, rule, I, what, W):
        s.n += 1
        return s.ctx.check(c, rule, I.where(), "%s: %s" % (s.f.short(), what), W.trace(), key="%s|%s" % (rule, s.f.short()))
    def access(s, st, I, W):
        """(field, 'r'|'w'|'c') touched by this instruction"""
        if I.op == "load": f = tdf(W.ev(st, I.o[0])); return [(f, "r")] if f else []
        if I.op == "store": f = tdf(W.ev(st, I.o[1])); return [(f, "w")] if f else []
        if I.op in ("atomicrmw", "cmpxchg"): f = tdf(W.ev(st, I.o[0])); return [(f, "w")] if f else []
        if I.op == "call":
            out = []
            for n, o in enumerate(I.o):
                f = tdf(W.ev(st, o))
                if f: out.append((f, "c" if n == 0 else "r"))
            return out
        return []

class Create(Base):
    """rs = (fields set, started, resumed, detached-called, constructed)"""
    def __init__(s, ctx, f, fields, early, sigf):
        Base.__init__(s, ctx, f, fields); s.early = early; s.sigf = sigf
    def init(s): return (frozenset(), 0, 0, 0)
    def det(s, st, W):
        for k, v in st.mem.items():
            if tdf(k) == s.F["detached"]: return W.truth(st, v)
        return s.flag(st)
    def flag(s, st): return None
    def step(s, st, I, W):
        done, start, res, deta = st.rs
        c = I.callee if I.op == "call" else ""
        acc = s.access(st, I, W)
        if I.op == "store" and tdf(W.ev(st, I.o[1])) == s.F["detached"]:
            v = W.truth(st, W.ev(st, I.o[0])); st.rs = (done | {"detached=%s" % v, s.F["detached"]}, start, res, deta); done = st.rs[0]
        dstate = True if "detached=True" in done else False if "detached=False" in done else None
        if c == S + "notify" and loaded(W.ev(st, I.o[0])) == s.sigf or c == S + "notify" and s.created(st, I, W, s.sigf):
            s.ck(start == 1, "resumed after the thread was started", I, "resume", W)
            miss = sorted(set(s.F["must"]) - done)
            s.ck(not miss, "thread object completely set up before its entry function may run", I, "not set when the thread is resumed: %s" % ", ".join(miss) if miss else "all members set", W)
            s.ck(res == 0, "resumed exactly once", I, "resume", W)
            if dstate is not False: s.ck(deta == 1 or dstate is None, "a detached thread is detached before it may end", I, "detach", W)
            if dstate is not True: s.ck(deta == 0 or dstate is None, "a joinable thread is not detached", I, "detach", W)
            st.rs = (done, start, res + 1, deta); return None
        if res and acc:
            s.ck(dstate is False and all(k == "r" for _, k in acc), "the creator does not touch the thread object after resuming it", I, "%s after the thread may already have released it" % ", ".join(f for f, _ in acc), W)
        if c.startswith("std::thread::thread<"):
            miss = sorted(set(s.early) - done)
            s.ck(not miss, "members the thread reads before it waits are set before it starts", I, "set before start: %s" % (", ".join(sorted(s.early)) or "none"), W)
            s.ck(start == 0, "one thread per object", I, "thread start", W)
            st.rs = (done, start + 1, res, deta); return None
        if c == "std::thread::detach" and acc:
            s.ck(dstate is not False, "a joinable thread is not detached", I, "detach", W)
            st.rs = (done, start, res, deta + 1); return None
        new = {f for f, k in acc if k == "w" or k == "c" and not (I.callee or "").endswith("::%s" % (I.callee or "").split("::")[-2] if (I.callee or "").count("::") > 1 else "")}
        if new: st.rs = (done | new, start, res, deta)
        return None
    def created(s, st, I, W, sigf):
        """the notify argument is the value stored in the resume member"""
        a = W.ev(st, I.o[0])
        return any(tdf(k) == sigf and v == a for k, v in st.mem.items())
    def exit(s, st, I, W):
        done, start, res, deta = st.rs
        s.ck(start == 1 and res == 1, "a created thread is started and resumed on every path", I, "started %d, resumed %d" % (start, res), W)
        d = "detached=True" in done
        if I.o and not d:
            v = W.ev(st, I.o[0])
            s.ck(v != NULL, "a joinable thread is returned to its creator", I, "return value", W)

class Run(Base):
    """the entry function. rs = (waited, called, notified, deleted, resume destroyed, exit destroyed, detached, tls set)"""
    def __init__(s, ctx, f, fields, sigf, exitf): Base.__init__(s, ctx, f, fields); s.sigf = sigf; s.exitf = exitf; s.calls = 0
    def init(s): return (0, 0, 0, 0, 0, 0, None, 0)
    def step(s, st, I, W):
        w, called, noti, dele, rd, ed, det, tls = st.rs
        acc = s.access(st, I, W); c = I.callee if I.op == "call" else ""
        if acc:
            s.ck(not dele, "no access after release", I, "%s" % ", ".join(f for f, _ in acc), W)
            for f, k in acc:
                if not w: s.ck(f == s.sigf and k == "r", "the thread waits to be resumed before it uses its object", I, f, W)
        if I.op == "store" and W.ev(st, I.o[1])[0] == "call" and "threadlocal" in W.ev(st, I.o[1])[2]:
            tls = 0 if W.ev(st, I.o[0]) == NULL else 1
        if I.op == "store" and W.ev(st, I.o[1])[0] == "glob":
            if W.ev(st, I.o[0]) == ("arg", 0, s.f.args[0][0]): tls = 1
            elif W.ev(st, I.o[0]) == NULL: tls = 0
        if c == S + "wait" and loaded(W.ev(st, I.o[0])) == s.sigf: w += 1
        elif c == S + "destroy":
            l = loaded(W.ev(st, I.o[0]))
            if l == s.sigf: s.ck(w == 1 and rd == 0, "the resume signal is destroyed once, after the wait", I, "destroy", W); rd += 1
            elif l == s.exitf: s.ck(ed == 0 and noti, "the exit signal is destroyed once, after the notification", I, "destroy", W); ed += 1
        elif c == S + "notify" and loaded(W.ev(st, I.o[0])) == s.exitf:
            s.ck(called in (1, -1), "the end is announced after the entry function returned", I, "exit notification", W)
            s.ck(not ed, "no notification on a destroyed signal", I, "exit notification", W)
            noti += 1
        elif c.startswith("std::function<") and c.endswith("operator()") and tdf(W.ev(st, I.o[0])) or c == "indirect" and acc:
            s.calls += 1
            s.ck(called in (0, 2) and w == 1 and not noti, "the entry function runs once, after the resume wait", I, "call", W); called = 1
        elif c.startswith("std::function<") and c.endswith("operator bool") and acc and called == 0:
            call = ("call", I.i, c, tuple(W.ev(st, a) for a in I.o))
            b = st.copy(); st.facts.assume(call, "ne", 0); b.facts.assume(call, "eq", 0)
            b.rs = (w, -1, noti, dele, rd, ed, det, tls); st.rs = (w, 2, noti, dele, rd, ed, det, tls)
            return [st, b]
        elif c == "operator delete":
            a = W.ev(st, I.o[0])
            if a == ("arg", 0, s.f.args[0][0]):
                d = s.detached(st, W, det)
                s.ck(d is True, "only a detached thread releases its own object", I, "release", W)
                s.ck(dele == 0, "released exactly once", I, "release", W)
                s.ck(noti == 1 and ed == 1 and rd == 1, "the signals are done before the object is released", I, "release (exit signal %d, resume signal %d)" % (ed, rd), W)
                s.ck(tls == 0, "the thread's own pointer is cleared before the release", I, "release", W)
                dele += 1
        if I.op == "load" and tdf(W.ev(st, I.o[0])) == s.F["detached"]:
            e = ("ld", I.i, W.ev(st, I.o[0]))
            if det is None:
                a = st.copy(); a.facts.assume(e, "ne", 0); st.facts.assume(e, "eq", 0)
                a.rs = (w, called, noti, dele, rd, ed, True, tls); st.rs = (w, called, noti, dele, rd, ed, False, tls)
                return [a, st]
            if not st.facts.assume(e, "ne" if det else "eq", 0): return []
        st.rs = (w, called, noti, dele, rd, ed, det, tls)
        return None
    def detached(s, st, W, det): return det
    def exit(s, st, I, W):
        w, called, noti, dele, rd, ed, det, tls = st.rs
        s.ck(det is not None, "the thread knows whether it is detached", I, "return", W)
        s.ck(w == 1 and rd == 1, "the resume signal is waited for and destroyed", I, "return", W)
        s.ck(noti == 1, "the end of the thread is announced", I, "return", W)
        s.ck(dele == (1 if det else 0), "a detached thread's object is released exactly once, a joinable one's is left to the join", I, "detached=%s released=%d" % (det, dele), W)
        if not det: s.ck(ed == 0, "the exit signal of a joinable thread is left to the join", I, "return", W)

class Join(Base):
    """rs = (joined, deleted, exit destroyed, timed failure seen, timed ok)"""
    def __init__(s, ctx, f, fields, sigf, exitf): Base.__init__(s, ctx, f, fields); s.sigf = sigf; s.exitf = exitf
    def init(s): return (0, 0, 0, None)
    def step(s, st, I, W):
        j, dele, ed, tw = st.rs
        acc = s.access(st, I, W); c = I.callee if I.op == "call" else ""
        if acc: s.ck(not dele, "no access after release", I, ", ".join(f for f, _ in acc), W)
        if c == "std::thread::join" and acc:
            s.ck(j == 0, "joined once", I, "join", W)
            ms = ("arg", 1, s.f.args[1][0]) if len(s.f.args) > 1 else None
            neg = ms and W.truth(st, ("cmp", "slt", ms, ("const", 0)))
            s.ck(tw is True or neg is True or ms is None, "a bounded join waits for the end before it joins", I, "join", W)
            st.rs = (1, dele, ed, tw)
        elif c == S + "timewait" and loaded(W.ev(st, I.o[0])) == s.exitf:
            if len(s.f.args) > 1: s.ck(W.ev(st, I.o[1]) == ("arg", 1, s.f.args[1][0]), "the requested time is waited", I, "timed wait", W)
            call = ("call", I.i, c, tuple(W.ev(st, a) for a in I.o))
            b = st.copy(); st.facts.assume(call, "ne", 0); b.facts.assume(call, "eq", 0)
            st.rs = (j, dele, ed, True); b.rs = (j, dele, ed, False)
            return [st, b]
        elif c == S + "wait" and loaded(W.ev(st, I.o[0])) == s.exitf: st.rs = (j, dele, ed, True)
        elif c == S + "destroy" and loaded(W.ev(st, I.o[0])) in (s.exitf, s.sigf):
            s.ck(loaded(W.ev(st, I.o[0])) == s.exitf and j == 1 and ed == 0, "the exit signal is destroyed once, after the join", I, "destroy", W); st.rs = (j, dele, ed + 1, tw)
        elif c == "operator delete" and root(W.ev(st, I.o[0])) == ("arg", 0, s.f.args[0][0]):
            s.ck(j == 1, "released after the thread was joined", I, "release", W)
            s.ck(dele == 0, "released exactly once", I, "release", W)
            s.ck(ed == 1, "the exit signal is destroyed with the object", I, "release", W)
            st.rs = (j, dele + 1, ed, tw)
        return None
    def exit(s, st, I, W):
        j, dele, ed, tw = st.rs
        r = W.truth(st, W.ev(st, I.o[0])) if I.o else True
        s.ck(r is not None, "the result is decided on every path", I, "return", W)
        if r: s.ck(dele == 1 and j == 1, "a successful join releases the object exactly once", I, "return true (released %d)" % dele, W)
        else: s.ck(dele == 0 and ed == 0 and j == 0 and tw is False, "a failed timed join releases nothing", I, "return false (released %d, exit signal destroyed %d)" % (dele, ed), W)

def run(ctx):
    P = ctx.program()
    lay = P.types.get(T)
    if not lay: raise Vanished("type thread_data_s")
    names = [x[2] for x in lay]
    det = [x[2] for x in lay if x[3] == "bool"]
    if len(det) != 1: raise Vanished("detached member")
    F = {"detached": det[0]}
    # thread starts
    entries = set(); creators = []; joiners = []; users = []
    for f in P.fns.values():
        if f.cand and f.ncall > 0 and f.ntaken == 0: continue
        touch = False; cr = jo = False
        for I in f.all():
            for o in I.o:
                if o and o[0] == "v" and tdf(static_ev(f, o)): touch = True
            if I.op == "call" and (I.callee or "").startswith("std::thread::thread<"):
                g = [o[1] for o in I.o if o[0] == "g"]
                entries.update(g); cr = True
            if I.op == "call" and I.callee == "std::thread::join": jo = True
        if cr: creators.append(f)
        elif jo: joiners.append(f)
        elif touch: users.append(f)
    ents = [P.fns[g] for g in entries if g in P.fns]
    if len(ents) != 1: raise Vanished("thread entry function: %s" % sorted(entries))
    entry = ents[0]; users = [u for u in users if u is not entry]
    # signal roles: the one the entry waits for, the other one
    waited = {loaded(static_ev(entry, I.o[0])) for I in entry.calls(S + "wait")} - {None}
    notified = {loaded(static_ev(entry, I.o[0])) for I in entry.calls(S + "notify")} - {None}
    sigs = {x[2] for x in lay if "signal_t" in x[3]}
    if len(waited) == 1 and len(sigs - waited) == 1: exitf = (sigs - waited).pop()
    elif len(notified - waited) == 1: exitf = (notified - waited).pop()
    else: raise Vanished("exit signal of the thread object")
    if len(waited) != 1:
        ctx.bad("the thread waits to be resumed before it uses its object", "%s:%d" % (entry.file, entry.line), "%s never waits to be resumed" % entry.short()); 
        if not waited: return
    sigf = waited.pop()
    # members read by anyone
    read = set()
    for f in P.fns.values():
        for I in f.all():
            if I.op == "load": read.add(tdf(static_ev(f, I.o[0])))
            elif I.op == "call": 
                for n, o in enumerate(I.o):
                    if o[0] == "v" and not DTOR.search(I.callee or ""): read.add(tdf(static_ev(f, o)))
    F["must"] = sorted((read - {None}))
    early = {sigf}
    for f in creators:
        R = Create(ctx, f, F, early, sigf); W = Walker(f, R, pure=re.compile(PURE.pattern + "|^std::|^cyclone::sys_api::signal_create")).run(); ctx.count("abstract states", W.visited)
    R = Run(ctx, entry, F, sigf, exitf); W = Walker(entry, R, argfacts=[(("arg", 0, entry.args[0][0]), "ne", 0)]).run(); ctx.count("abstract states", W.visited)
    ctx.need(R.calls, 1, "calls of the user's entry function")
    for f in joiners:
        R = Join(ctx, f, F, sigf, exitf); W = Walker(f, R, argfacts=[(("arg", 0, f.args[0][0]), "ne", 0)]).run(); ctx.count("abstract states", W.visited)
    for f in users:
        for I in f.all():
            w = I.op in ("store", "atomicrmw", "cmpxchg") and tdf(static_ev(f, I.o[1] if I.op == "store" else I.o[0]))
            ctx.check(not w, "only creator, thread and join write the thread object", I.where(), "%s writes %s" % (f.short(), w)) if w else None
        ctx.ok("only creator, thread and join write the thread object", "%s:%d" % (f.file, f.line), f.short())
    ctx.need(len(creators), 2, "creating functions"); ctx.need(len(joiners), 1, "joining functions"); ctx.need(len(users), 2, "other users of the object")
    # the thread destroys the resume signal as soon as its wait returns: the notifier must be done with it when it releases the mutex
    f = P.one(S + "notify")
    class Last:
        def init(s): return 0
        def step(s, st, I, W):
            if I.op == "call" and I.callee in UNLOCK: st.rs = 1; return None
            if st.rs and I.op in ("load", "store", "call", "atomicrmw", "cmpxchg"):
                for o in I.o:
                    e = W.ev(st, o) if o[0] in ("v", "a") else ("const", 0)
                    if root(e)[0] == "arg" and e[0] != "ld": ctx.check(False, "a notifier is done with the signal when the waiter can run", I.where(), "signal_notify uses the signal after releasing its mutex: the woken thread may already have destroyed it", W.trace(), key="notify-after-unlock")
        def exit(s, st, I, W): ctx.ok("a notifier is done with the signal when the waiter can run", I.where(), "signal_notify")
    Walker(f, Last()).run()
