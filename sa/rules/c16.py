"""Messages to a worker thread.

Sender: in every function that pushes to a worker's queue all paths are walked
with the push and the wake-up attempt (compare-exchange or exchange on the
armed flag) split by outcome.  A push that succeeded is followed by an attempt,
or by a wake-up byte, before the function returns; the attempt cannot fail
spuriously, and one that found the flag armed writes at least one byte to the
worker's pipe before returning.  Worker: in every function that takes messages
from the queue, a return needs the flag re-armed after the last read of the
pipe and a pop that found the queue empty after the last re-arming.  The flag
starts armed, is never disarmed in any other way, the pipe is watched for
reading before the worker enters its loop, and flag and queue operations are
totally ordered (seq_cst), without which the last look may miss the message and
the sender the re-armed flag."""
from evt import *
from rules.c04 import field, static_field
LEVEL = "other"
WT = "cyclone::WorkThread"
QPUSH = re.compile(r"^cyclone::LockFreeQueue<.*>::push$"); QPOP = re.compile(r"^cyclone::LockFreeQueue<.*>::pop$")
WPURE = re.compile(PUREV.pattern + r"|^cyclone::LockFreeQueue<.*>::(push|pop)$|^cyclone::Pipe::(read|write)$|^cyclone::Packet::|^cyclone::disk_log|^cyclone::sys_api::thread_(yield|sleep)$")

def wf(e): return fieldof(e, WT)[0]
def touches(f, field):
    for I in f.all():
        k = {"store": 1, "atomicrmw": 0, "cmpxchg": 0, "load": 0}.get(I.op)
        if k is not None and wf(static_ev(f, I.o[k])) == field: yield I
def calls(f, rx, field):
    return [I for I in f.all() if I.op == "call" and rx.search(I.callee or "") and I.o and wf(static_ev(f, I.o[0])) == field]
SC = ("seq_cst",)

class Send(R0):
    # rs: (a push not yet announced, flag won and byte not yet written, expressions of a failed weak attempt)
    def init(s): return (False, False, frozenset())
    def keep_exprs(s, rs): return list(rs[2])
    def order(s, o, I, W): s.ck(o in SC, "pushing and looking at the flag are totally ordered", I, "memory order %s" % o, W)
    def step(s, st, I, W):
        pend, won, obs = st.rs
        if I.op in ("cmpxchg", "atomicrmw") and wf(W.ev(st, I.o[0])) == "m_is_queue_empty":
            s.hit["try"] = s.hit.get("try", 0) + 1
            s.order(I.j.get("at"), I, W)
            if I.op == "atomicrmw":
                v = W.ev(st, I.o[1])
                s.ck(v == ("const", 0) and I.j["rmw"] in ("xchg", "and"), "an attempt to wake disarms the flag", I, "%s %s" % (I.j["rmw"], fmt(v)), W)
                e = ("val", I.i); b = st.copy()
                st.rs = (False, True, obs); st.facts.assume(e, "ne", 0)
                b.rs = (False, won, obs); b.facts.assume(e, "eq", 0)
                return [st, b]
            s.order(I.j.get("fat", "seq_cst"), I, W)
            x, n = W.ev(st, I.o[1]), W.ev(st, I.o[2])
            s.ck(x[0] == "const" and x[1] & 1 and n == ("const", 0), "an attempt to wake disarms the flag", I, "%s to %s" % (fmt(x), fmt(n)), W)
            ok = ("xv", ("val", I.i), (1,)); old = ("xv", ("val", I.i), (0,)); b = st.copy()
            st.rs = (False, True, obs); st.facts.assume(ok, "ne", 0); st.facts.assume(old, "eq", x[1])
            b.facts.assume(ok, "eq", 0)
            if I.j.get("weak"): b.rs = (pend, won, obs | {old})
            else: b.rs = (False, won, obs); b.facts.assume(old, "eq", 0)
            return [st, b]
        if I.op == "load" and wf(W.ev(st, I.o[0])) == "m_is_queue_empty":
            # a plain look that finds the flag disarmed is as good as a failed attempt
            s.order(I.j.get("at"), I, W)
            e = ("ld", I.i, W.ev(st, I.o[0])); b = st.copy()
            st.rs = (False, won, obs); st.facts.assume(e, "eq", 0)
            b.facts.assume(e, "ne", 0)
            return [st, b]
        if I.op == "store" and wf(W.ev(st, I.o[1])) == "m_is_queue_empty":
            v = W.ev(st, I.o[0])
            if v == ("const", 0): st.rs = (False, True, obs)        # disarmed: the byte is owed
            else: s.ck(False, "only the worker re-arms the flag", I, "stores %s" % fmt(v), W)
            return None
        if I.op != "call": return None
        c = I.callee or ""; args = [W.ev(st, o) for o in I.o]
        if QPUSH.search(c) and wf(args[0]) == "m_message_queue":
            s.hit["push"] = s.hit.get("push", 0) + 1
            e = ("call", I.i, c, tuple(args)); b = st.copy()
            st.rs = (True, won, obs); st.facts.assume(e, "ne", 0)
            b.facts.assume(e, "eq", 0)
            return [st, b]
        if c == "cyclone::Pipe::write" and wf(args[0]) == "m_pipe":
            s.ck(args[2][0] == "const" and args[2][1] > 0, "a wake-up is at least one byte", I, "writes %s bytes" % fmt(args[2]), W)
            s.hit["write"] = s.hit.get("write", 0) + 1
            st.rs = (pend if not won else False, False, obs)
            if not won: st.rs = (False, False, obs)
        return None
    def exit(s, st, I, W):
        pend, won, obs = st.rs
        s.ck(not won, "who disarms the flag writes the wake-up", I, "return", W)
        s.ck(not pend or any(st.facts.get(e)[:2] == (0, 0) for e in obs), "a pushed message is announced before returning", I, "return without an attempt to wake the worker", W)

class Recv(R0):
    # rs: (re-armed since the last pipe read, queue seen empty since re-arming)
    def init(s): return (False, False)
    def step(s, st, I, W):
        arm, drained = st.rs
        if I.op in ("store", "atomicrmw", "cmpxchg") and wf(W.ev(st, I.o[1 if I.op == "store" else 0])) == "m_is_queue_empty":
            v = W.ev(st, I.o[{"store": 0, "atomicrmw": 1, "cmpxchg": 2}[I.op]])
            s.ck(v[0] == "const" and v[1] & 1, "the worker only re-arms the flag", I, "stores %s" % fmt(v), W)
            s.ck(I.j.get("at") in SC, "re-arming and looking at the queue are totally ordered", I, "memory order %s" % I.j.get("at"), W)
            s.hit["arm"] = 1
            if I.op != "cmpxchg": st.rs = (True, False)
            else: st.rs = (True, False)
            return None
        if I.op != "call": return None
        c = I.callee or ""; args = [W.ev(st, o) for o in I.o]
        if c in ("cyclone::Pipe::read",) and wf(args[0]) == "m_pipe": st.rs = (False, False)
        elif QPOP.search(c) and wf(args[0]) == "m_message_queue":
            s.hit["pop"] = s.hit.get("pop", 0) + 1
            e = ("call", I.i, c, tuple(args)); b = st.copy()
            st.facts.assume(e, "eq", 0); st.rs = (arm, arm)
            b.facts.assume(e, "ne", 0); b.rs = (arm, False)
            return [st, b]
        return None
    def exit(s, st, I, W):
        arm, drained = st.rs
        s.ck(arm, "the wake-up is re-armed after the pipe was read", I, "return", W)
        s.ck(drained, "the queue is looked at once more after re-arming", I, "return", W)

class Enter(R0):
    # rs: (registered, addresses of functions stored)
    def __init__(s, ctx, f, drains): R0.__init__(s, ctx, f); s.dr = drains
    def init(s): return (False, frozenset())
    def step(s, st, I, W):
        reg, fns = st.rs
        if I.op == "store":
            g = {x[1] for x in subexprs(W.ev(st, I.o[0])) if x[0] == "glob"}
            if g: st.rs = (reg, fns | g)
        if I.op != "call": return None
        c = I.callee or ""; args = [W.ev(st, o) for o in I.o]
        g = {x[1] for a in args for x in subexprs(a) if x[0] == "glob"}
        if c.endswith("Looper::register_event"):
            fd = args[1]
            port = fd[0] == "ld" and (wf(fd[2]) == "m_pipe" or fieldof(fd[2], "cyclone::Pipe")[0]) or fd[0] == "call" and "get_read_port" in fd[2]
            if port:
                s.ck(args[2][0] == "const" and args[2][1] & 1, "the pipe is watched for reading", I, "interest %s" % fmt(args[2]), W)
                known = {x for x in fns if x in W.fn.prog.fns}
                s.ck(not known or known & s.dr, "the pipe's handler drains the queue", I, "handler %s" % sorted(known), W)
                st.rs = (True, fns)
        elif c == "cyclone::Looper::loop":
            s.hit["loop"] = 1
            s.ck(reg, "the pipe is watched before the worker enters its loop", I, "loop", W)
        elif g: st.rs = (reg, fns | g)
        return None

class Orders(R0):
    def __init__(s, ctx, f, vis): R0.__init__(s, ctx, f); s.vis = vis
    """every look at and every advance of the visible end takes part in the total order"""
    def step(s, st, I, W):
        if I.op not in ("load", "store", "cmpxchg", "atomicrmw"): return None
        a = W.ev(st, I.o[1 if I.op == "store" else 0])
        if field(a)[0] != s.vis: return None
        s.hit["q"] = 1
        s.ck(I.j.get("at") in SC, "the queue's visible end takes part in the total order", I, "memory order %s" % I.j.get("at"), W)
        return None

def run(ctx):
    P = ctx.program()
    lib = [f for f in roots(P) if not f.file.startswith("sample")]
    ns = nr = 0; hit = {}; drains = set()
    def go(f, R):
        W = Walker(f, R, pure=WPURE); W.run()
        for k, v in R.hit.items(): hit[k] = hit.get(k, 0) + v
        ctx.count("abstract states", W.visited)
    recv = [f for f in lib if calls(f, QPOP, "m_message_queue")]
    for f in recv: drains.add(f.name)
    for f in lib:
        isctor = re.search(r"::(~?)(WorkThread)$", f.base)
        if isctor:
            for I in touches(f, "m_is_queue_empty"):
                if I.op == "store":
                    v = static_ev(f, I.o[0])
                    ctx.check(v[0] == "const" and v[1] & 1, "the flag starts armed", I.where(), "%s stores %s" % (f.short(), fmt(v)), key="start"); hit["start"] = 1
            continue
        if calls(f, QPUSH, "m_message_queue"): ns += 1; go(f, Send(ctx, f))
        elif f not in recv and any(I.op != "load" for I in touches(f, "m_is_queue_empty")): go(f, Send(ctx, f))
        if f in recv: nr += 1; go(f, Recv(ctx, f))
        if any(I.callee == "cyclone::Looper::loop" and I.o and (lambda e: e[0] == "ld" and wf(e[2]) == "m_looper")(static_ev(f, I.o[0])) for I in f.calls()):
            go(f, Enter(ctx, f, drains))
    # queue side of the ordering
    for base in sorted(b for b in P.by_base if re.match(r"^cyclone::LockFreeQueue<.*>::push$", b)):
        push = P.one(base); pop = P.one(base[:-4] + "pop")
        cx = lambda f: {static_field(f, I.o[0])[0] for I in f.all() if I.op == "cmpxchg"} - {None}
        for vis in (cx(push) - cx(pop)) & {static_field(pop, I.o[0])[0] for I in pop.all() if I.op == "load"}:
            for f in (push, pop):
                R = Orders(ctx, f, vis); Walker(f, R, pure=WPURE).run(); hit["q"] = hit.get("q", 0) + R.hit.get("q", 0)
    ctx.need(ns, 1, "functions that send"); ctx.need(nr, 1, "functions that receive")
    for k, n in (("push", 1), ("try", 1), ("pop", 1), ("start", 1), ("q", 1)): ctx.need(hit.get(k, 0), n, k)
    ctx.check(hit.get("loop", 0) >= 1, "the pipe is watched before the worker enters its loop", "source/cyEvent/event/cye_work_thread.cpp", "no worker entry function found")
    ctx.assumption("a byte in the worker's pipe makes its loop run the pipe's handler (level-triggered readiness, C13, C15)")
    ctx.assumption("a failed push means the queue is full, which the API reports by dropping the message")
