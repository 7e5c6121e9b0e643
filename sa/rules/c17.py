"""Packet ownership.

Every function of the library and the samples is walked with the heap packets
it holds as typestate: a packet enters by allocation or by a successful pop of a
queue of packets, and leaves exactly once - freed, taken by a queue whose push
succeeded, or returned.  A packet that left is never touched or given away
again, one still held at a return (or overwritten by the next allocation) leaks,
and a packet is delivered to the message callback at most once, while it is
held.  Allocation and release themselves: the memory of a deleted packet is
destructed exactly once before it is released.  What a copy contains and what
cleaning releases is decided by interpreting the packet class (see C18)."""
from evt import *
import packet
LEVEL = "other"
QPUSH = re.compile(r"^cyclone::LockFreeQueue<cyclone::Packet ?\*.*>::push$"); QPOP = re.compile(r"^cyclone::LockFreeQueue<cyclone::Packet ?\*.*>::pop$")
ALLOC = ("cyclone::Packet::alloc_packet", "cyclone::Packet::operator new")
FREE = ("cyclone::Packet::free_packet", "cyclone::Packet::operator delete")
PP = re.compile(PUREV.pattern + r"|^cyclone::LockFreeQueue<.*>::(push|pop)$|^cyclone::Packet::|^cyclone::Pipe::|^cyclone::disk_log|^cyclone::sys_api::thread_")

class Own(R0):
    keep_locals = True
    # rs: (held, gone, delivered, destructed) sets of packet expressions
    def init(s): return (frozenset(),) * 4
    def keep_exprs(s, rs): return [x for q in rs for x in q]
    def use(s, st, e, I, W, what):
        held, gone, dl, ds = st.rs
        for x in subexprs(e):
            if x in gone and x not in held: s.ck(False, "a packet is not touched after it was freed or handed over", I, what, W)
    def enter(s, st, e, I, W):
        held, gone, dl, ds = st.rs
        s.ck(e not in held, "no packet is lost", I, "the previous packet is still held", W)
        s.hit["enter"] = s.hit.get("enter", 0) + 1
        st.rs = (held | {e}, gone - {e}, dl - {e}, ds - {e})
    def leave(s, st, e, I, W, what):
        held, gone, dl, ds = st.rs
        if e in held: s.hit["leave"] = s.hit.get("leave", 0) + 1
        elif e in gone: s.ck(False, "a packet leaves exactly once", I, what + " again", W); return
        elif e[0] == "arg": pass
        else: s.ck(False, "only an owned packet is freed or handed over", I, "%s %s" % (what, fmt(e)), W)
        s.ck(True, "a packet leaves exactly once", I, what, W)
        st.rs = (held - {e}, gone | {e}, dl, ds)
    def null(s, st, e): return e[0] == "null" or e == ("const", 0) or st.facts.get(e)[:2] == (0, 0)
    def load(s, st, W, a, I):
        v = st.mem.get(a)
        return v if v is not None else ("ld", I.i, a)
    def step(s, st, I, W):
        if I.op == "load":
            s.use(st, W.ev(st, I.o[0]), I, W, "read"); return None
        if I.op == "store":
            s.use(st, W.ev(st, I.o[1]), I, W, "written")
            return None
        if I.op != "call": return None
        c = I.callee or ""; args = [W.ev(st, o) for o in I.o]
        if c in ALLOC:
            e = ("call", I.i, c, tuple(args)); st.facts.m.pop(e, None)
            s.enter(st, e, I, W); return None
        if c in FREE:
            if s.null(st, args[0]): return None
            if c.endswith("operator delete"):
                s.ck(args[0] in st.rs[3], "a packet is destructed before its memory is released", I, fmt(args[0]), W)
            s.leave(st, args[0], I, W, "freed"); return None
        if c == "cyclone::Packet::~Packet" and args[0][0] != "alloca":
            held, gone, dl, ds = st.rs
            s.use(st, args[0], I, W, "destructed")
            s.ck(args[0] not in ds, "a packet is destructed once", I, fmt(args[0]), W)
            st.rs = (held, gone, dl, ds | {args[0]}); return None
        if QPUSH.search(c):
            p = s.load(st, W, args[1], I)
            if p in st.rs[1] and p not in st.rs[0]: s.ck(False, "a packet leaves exactly once", I, "pushed again", W)
            e = ("call", I.i, c, tuple(args)); b = st.copy()
            st.facts.assume(e, "ne", 0); b.facts.assume(e, "eq", 0)
            s.hit["push"] = 1
            s.leave(st, p, I, W, "pushed")
            return [st, b]
        if QPOP.search(c):
            e = ("call", I.i, c, tuple(args)); b = st.copy()
            st.facts.assume(e, "ne", 0); b.facts.assume(e, "eq", 0)
            old = st.mem.get(args[1])
            v = ("opaque", "pop%d" % I.i)
            for q in (st,): q.mem[args[1]] = v; q.facts.m.pop(v, None); q.facts.assume(v, "ne", 0)
            s.hit["pop"] = 1
            s.enter(st, v, I, W)
            return [st, b]
        for a in args: s.use(st, a, I, W, "passed to %s" % c)
        if FCALL.search(c):
            held, gone, dl, ds = st.rs
            for a in args[1:]:
                if a in held:
                    s.hit["deliver"] = 1
                    s.ck(a not in dl, "a packet is delivered at most once", I, "delivered again", W)
                    st.rs = (held, gone, dl | {a}, ds)
        return None
    def exit(s, st, I, W):
        held = st.rs[0]
        r = W.ev(st, I.o[0]) if I.o else None
        for e in held:
            s.ck(e == r or s.null(st, e), "no packet is lost", I, "return holding %s" % fmt(e), W)
        if I.o: s.use(st, r, I, W, "returned")

def run(ctx):
    P = ctx.program(); hit = {}; nf = 0
    progs = [P] + [q for _, q in ctx.samples()]
    done = set()
    for Q in progs:
        for f in roots(Q):
            if f.name in done: continue
            if not any((I.callee or "") in ALLOC + FREE or QPUSH.search(I.callee or "") or QPOP.search(I.callee or "") for I in f.calls()): continue
            if f.base in ("cyclone::Packet::operator new", "cyclone::Packet::operator delete"): continue
            done.add(f.name); nf += 1
            R = Own(ctx, f); W = Walker(f, R, pure=PP).run(); ctx.count("abstract states", W.visited)
            for k, v in R.hit.items(): hit[k] = hit.get(k, 0) + v
    A = None
    def sink(rule, where, detail, trace):
        if any(("Packet::" + m + ":") in detail for m in ("clean", "~Packet", "alloc_packet")): ctx.bad(rule, where, detail, trace, key="%s|%s" % (rule, detail))
    A = packet.analyse(P, sink)
    for rule, where, ok, method in A.obl:
        if ok and method.split("::")[1] in ("clean", "~Packet", "alloc_packet"): ctx.ok(rule, where, method)
    ctx.need(nf, 5, "functions that own packets")
    for k in ("enter", "leave", "push", "pop", "deliver"): ctx.check(hit.get(k, 0) >= 1, "packets are allocated, queued, taken, delivered and released", "source/cyEvent/event/cye_work_thread.cpp", "no %s" % k, key="some " + k)
