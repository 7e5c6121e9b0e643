"""Stop requests.

The stop flag is only ever set (every store outside the constructor stores a
non-zero constant).  Who sets it sets it before looking at the wake-up pipe,
looks at the pipe only under the loop's mutex, and wakes the loop.  A wake-up
is given up only when there is no pipe or the touched flag was already set; the
callback of the pipe consumes the wake-up before it resets the flag, on every
path.  In every function that waits, all paths are walked with the flag read as
set or clear at each read: a wait or a callback needs the flag to have been
read clear since the previous wait or callback, and after reading it set there
is neither; a blocking wait also needs the pipe to be published under the
mutex, registered for reading with the resetting callback, and either a look at
the flag or a forced wake-up after the publication; the published pipe is taken
back under the mutex before it dies."""
from evt import *
from locks import LOCK, UNLOCK
LEVEL = "other"
QPURE = re.compile(PUREV.pattern + r"|^cyclone::Looper::register_event$|^cyclone::Looper_\w+::_poll$|::_poll$|^cyclone::Pipe::(write|Pipe|read|get_read_port|get_write_port)$|^std::vector<.*>::~?vector$")
def atomic_read(I): return I.op == "load"
def is_lock(e): return e[0] == "ld" and lpfield(e[2]) == "m_lock"

ORD = {"set": [], "stop": [], "reset": [], "look": []}      # memory orders seen: who touches, who requests, who re-arms, who looks
def order(kind, I, rmw=False):
    ORD[kind].append((I.j.get("at") or ("seq_cst" if I.op in ("cmpxchg",) and not I.j.get("at") else "none"), rmw, I))

class Wait(R0):
    # rs: seen 'no'|'clear'|'set', held, pub (None | pipe expr), since (flag looked at or wake-up forced since publication), reg, regargs
    def init(s): return ("no", False, None, False, False, frozenset())
    def __init__(s, ctx, f, resetters, touching): R0.__init__(s, ctx, f); s.res = resetters; s.touching = touching
    def step(s, st, I, W):
        seen, held, pub, since, reg, cbs = st.rs
        if I.op == "load":
            a = W.ev(st, I.o[0])
            if lpfield(a) == "m_quit_cmd":
                s.hit["read"] = s.hit.get("read", 0) + 1
                order("look", I)
                e = ("ld", I.i, a)
                b = st.copy()
                st.facts.assume(e, "eq", 0); st.rs = ("clear" if seen != "set" else "set", held, pub, True if pub else since, reg, cbs)
                b.facts.assume(e, "ne", 0); b.rs = ("set", held, pub, True if pub else since, reg, cbs)
                return [b] if seen == "set" else [st, b]
            return None
        if I.op == "store":
            a = W.ev(st, I.o[1]); v = W.ev(st, I.o[0])
            if lpfield(a) == "m_inner_pipe":
                s.ck(held, "the wake-up pipe changes only under the loop's mutex", I, "store to m_inner_pipe", W)
                null = v[0] == "null" or v == ("const", 0)
                st.rs = (seen, held, None if null else v, False, False, cbs)
            return None
        if I.op != "call": return None
        c = I.callee or ""; args = [W.ev(st, o) for o in I.o]
        if c in LOCK and is_lock(args[0]): st.rs = (seen, True) + st.rs[2:]
        elif c in UNLOCK and is_lock(args[0]): st.rs = (seen, False) + st.rs[2:]
        elif c == "cyclone::Pipe::~Pipe":
            if pub is not None and strip(args[0]) == strip(pub): s.ck(False, "a published pipe is taken back before it dies", I, "~Pipe", W)
        elif re.search(r"^std::function<.*>::function<", c) and len(args) > 1 and args[1][0] == "glob":
            st.rs = st.rs[:5] + (frozenset(x for x in cbs if x[0] != strip(args[0])) | {(strip(args[0]), args[1][1])},)
        elif c.endswith("Looper::register_event"):
            if pub is not None:
                fd = args[1]
                port = fd[0] == "ld" and "m_pipe_fd" in str(fd[2]) or fd[0] == "call" and "get_read_port" in fd[2]
                cb = next((y for x, y in cbs if x == strip(args[4])), None)
                if port:
                    s.ck(args[2][0] == "const" and args[2][1] & 1, "the wake-up pipe is watched for reading", I, "register_event", W)
                    s.ck(cb in s.res, "the wake-up pipe's callback consumes the wake-up", I, "register_event with %s" % cb, W)
                    s.ck(strip(args[3]) == argx(s.f, 0), "the wake-up pipe's callback gets the loop", I, "parameter", W)
                    st.rs = (seen, held, pub, since or s.touching, True, cbs)
        elif c.endswith("::_poll"):
            s.hit["wait"] = s.hit.get("wait", 0) + 1
            s.ck(seen == "clear", "the stop flag is read before every wait", I, "flag " + {"no": "not read since the last wait or callback", "set": "was read as set", "clear": ""}[seen], W)
            blocking = not (args[3][0] == "const" and args[3][1] == 0)
            if blocking:
                s.hit["block"] = s.hit.get("block", 0) + 1
                s.ck(pub is not None, "a blocking wait can be woken", I, "the pipe is published", W)
                if pub is not None:
                    s.ck(reg, "a blocking wait can be woken", I, "the pipe is registered", W)
                    s.ck(since, "a stop request before the publication is noticed before waiting", I, "the flag is looked at, or a wake-up forced, after the publication", W)
            st.rs = ("no",) + st.rs[1:]
        elif FCALL.search(c):
            s.hit["cb"] = s.hit.get("cb", 0) + 1
            s.ck(seen == "clear", "the stop flag is read before every callback", I, "flag " + {"no": "not read since the last wait or callback", "set": "was read as set", "clear": ""}[seen], W)
            st.rs = ("no",) + st.rs[1:]
        return None
    def exit(s, st, I, W):
        seen, held, pub = st.rs[:3]
        s.ck(not held, "the wake-up pipe changes only under the loop's mutex", I, "return with the mutex held", W)
        s.ck(pub is None, "a published pipe is taken back before it dies", I, "return", W)
        s.ck(seen != "no", "the stop flag is read after the last callback", I, "return", W)

class Touch(R0):
    """wake-up protocol: rs = (flag set by us, wrote, quit stored, held, observed exprs, null pipe seen)"""
    def __init__(s, ctx, f, stop): R0.__init__(s, ctx, f); s.stop = stop; s.upd = "_update_channel_add_event" in f.base
    def keepmem(s, k): return False
    def init(s): return (False, False, False, False, frozenset(), frozenset())
    def keep_exprs(s, rs): return list(rs[4]) + list(rs[5]) + ([s.ctl] if getattr(s, 'ctl', None) else [])
    def step(s, st, I, W):
        own, wrote, q, held, obs, pipes = st.rs
        if I.op == "load":
            a = W.ev(st, I.o[0])
            if lpfield(a) == "m_inner_pipe":
                if s.stop: s.ck(held, "another thread looks at the wake-up pipe under the loop's mutex", I, "load of m_inner_pipe", W)
                st.rs = (own, wrote, q, held, obs, pipes | {st.mem.get(a) or ("ld", I.i, a)})
            elif lpfield(a) == "m_inner_pipe_touched": st.rs = (own, wrote, q, held, obs | {("ld", I.i, a)}, pipes)
            return None
        if I.op == "store":
            a = W.ev(st, I.o[1]); v = W.ev(st, I.o[0])
            if lpfield(a) == "m_quit_cmd": st.rs = (own, wrote, True, held, obs, pipes); order("stop", I)
            elif lpfield(a) == "m_inner_pipe_touched" and not (v == ("const", 0)): s.touched(st, None, I, W)
            return None
        if I.op in ("atomicrmw", "cmpxchg"):
            a = W.ev(st, I.o[0])
            if lpfield(a) == "m_inner_pipe_touched":
                e = ("val", I.i)
                order("set", I, True)
                won = None
                if I.op == "cmpxchg": e = ("xv", ("val", I.i), (0,)); won = ("xv", ("val", I.i), (1,))
                b = st.copy()
                s.touched(st, e, I, W)
                st.facts.assume(e, "eq", 0)
                b.rs = (own, wrote, q, held, obs | {e}, pipes); b.facts.assume(e, "ne", 0)
                if won: st.facts.assume(won, "eq", 1); b.facts.assume(won, "eq", 0)
                return [st, b]
            if lpfield(a) == "m_quit_cmd": st.rs = (own, wrote, True, held, obs, pipes); order("stop", I, True)
            return None
        if I.op != "call": return None
        c = I.callee or ""; args = [W.ev(st, o) for o in I.o]
        if c in LOCK and is_lock(args[0]): st.rs = (own, wrote, q, True, obs, pipes)
        elif c in UNLOCK and is_lock(args[0]): st.rs = (own, wrote, q, False, obs, pipes)
        elif c == "epoll_ctl" and s.upd:
            e = ("call", I.i, c, tuple(args)); b = st.copy()
            st.facts.assume(e, "eq", 0); b.facts.assume(e, "ne", 0); s.ctl = e
            return [st, b]
        elif c == "cyclone::Pipe::write":
            s.ck(not s.stop or held, "another thread looks at the wake-up pipe under the loop's mutex", I, "writes to it", W)
            n = args[2]
            s.ck(n[0] == "const" and n[1] > 0, "a wake-up is at least one byte", I, "writes %s bytes" % fmt(n), W)
            st.rs = (False, True, q, held, obs, pipes)
        return None
    def touched(s, st, e, I, W):
        own, wrote, q, held, obs, pipes = st.rs
        s.hit["touch"] = s.hit.get("touch", 0) + 1
        if s.stop: s.ck(q, "a stop request is recorded before the loop is woken", I, "touch", W)
        st.rs = (True, wrote, q, held, obs, pipes)
    def exit(s, st, I, W):
        own, wrote, q, held, obs, pipes = st.rs
        s.ck(not own, "who sets the touched flag writes the wake-up", I, "return", W)
        woken = lambda: wrote or any(W.truth(st, e) is False or st.facts.get(e)[:2] == (0, 0) or W.truth(st, ("cmp", "eq", e, ("null",))) for e in pipes) or any(W.truth(st, e) for e in obs)
        if s.upd:
            ok = any(x[0] == "call" and x[2] == "epoll_ctl" and (lo, hi) == (0, 0) for x, (lo, hi, _) in st.facts.m.items())
            if ok: s.ck(woken(), "a new registration wakes the loop", I, "return without waking", W); s.hit["reg"] = 1
        if s.stop:
            s.ck(q, "a stop request is recorded", I, "return", W)
            s.ck(woken(), "a stop request wakes the loop", I, "return without waking", W)

class Reset(R0):
    # rs: (read done, reset done)
    def init(s): return (False, False)
    def step(s, st, I, W):
        rd, rs = st.rs
        if I.op == "call" and (I.callee in ("cyclone::socket_api::read", "read", "cyclone::Pipe::read")):
            a = W.ev(st, I.o[0]); n = W.ev(st, I.o[2])
            s.ck(n[0] == "const" and n[1] > 0, "the wake-up is consumed", I, "reads %s bytes" % fmt(n), W)
            if I.callee != "cyclone::Pipe::read": s.ck(a == argx(s.f, 1), "the wake-up is consumed", I, "from the descriptor of the event", W)
            s.ck(not rs, "the wake-up is consumed before the flag is reset", I, "read after reset", W)
            st.rs = (True, rs)
        elif I.op == "store" and lpfield(W.ev(st, I.o[1])) == "m_inner_pipe_touched":
            s.ck(W.ev(st, I.o[0]) == ("const", 0), "the callback re-arms the wake-up", I, "store", W)
            s.ck(rd, "the wake-up is consumed before the flag is reset", I, "reset", W)
            order("reset", I)
            st.rs = (rd, True)
        elif I.op == "atomicrmw" and lpfield(W.ev(st, I.o[0])) == "m_inner_pipe_touched":
            s.ck(rd, "the wake-up is consumed before the flag is reset", I, "reset", W); st.rs = (rd, True); order("reset", I, True)
        return None
    def exit(s, st, I, W):
        s.ck(st.rs == (True, True), "the callback consumes the wake-up and re-arms it", I, "return", W)

def stores(f, field):
    for I in f.all():
        if I.op == "store" and lpfield(static_ev(f, I.o[1])) == field: yield I, I.o[0]
        elif I.op == "atomicrmw" and lpfield(static_ev(f, I.o[0])) == field: yield I, (I.o[1] if I.j.get("rmw") in ("xchg", "or") else None)
        elif I.op == "cmpxchg" and lpfield(static_ev(f, I.o[0])) == field: yield I, I.o[2]

def run(ctx):
    P = ctx.program()
    for v in ORD.values(): v.clear()
    lib = [f for f in roots(P) if not f.file.startswith("sample")]
    ctor = lambda f: f.base.startswith("cyclone::Looper") and re.search(r"::(Looper\w*)::\1$", f.base)
    nst = 0; stop = []
    for f in lib:
        for I, v in stores(f, "m_quit_cmd"):
            if ctor(f): continue
            nst += 1
            c = static_ev(f, v) if v is not None else ("?",)
            ctx.check(c[0] == "const" and c[1] != 0, "a stop request is never erased", I.where(), "%s stores %s" % (f.short(), fmt(c)), key="erase|" + f.short())
            if f not in stop: stop.append(f)
    ctx.need(nst, 1, "stores to the stop flag"); ctx.need(len(stop), 1, "functions that request a stop")
    # wake-up protocol
    resetters = {}; nt = 0; touch = []; reg = 0
    for f in lib:
        if ctor(f): continue
        sets = [static_ev(f, v) if v is not None else ("?",) for I, v in stores(f, "m_inner_pipe_touched")]
        if not sets: continue
        if all(c == ("const", 0) for c in sets):
            R = Reset(ctx, f); Walker(f, R, pure=QPURE).run(); resetters[f.name] = f
        else:
            R = Touch(ctx, f, f in stop); Walker(f, R, pure=QPURE).run(); nt += R.hit.get("touch", 0); touch.append(f); reg += R.hit.get("reg", 0)
    for f in stop:
        if f not in touch: Walker(f, Touch(ctx, f, True), pure=QPURE).run()
    ctx.check(bool(resetters), "the wake-up is re-armed after it was consumed", touch[0].file if touch else "?", "no function resets the touched flag")
    ctx.need(nt, 1, "wake-up attempts")
    # a registration forces a wake-up when adding interest does
    upd = [f for f in P.fns.values() if re.search(r"^cyclone::Looper_\w+::_update_channel_add_event$", f.base)]
    touching = bool(upd) and all(f in touch for f in upd) and reg >= len(upd)
    hit = {}; nf = 0
    for f in lib:
        if not any((c.callee or "").endswith("::_poll") for c in f.calls()): continue
        nf += 1
        R = Wait(ctx, f, set(resetters), touching); W = Walker(f, R, pure=QPURE).run()
        for k, v in R.hit.items(): hit[k] = hit.get(k, 0) + v
        ctx.count("abstract states", W.visited)
    # a requester that finds the flag set relies on the loop seeing its request after re-arming
    acq = ("acquire", "acq_rel", "seq_cst"); rel = ("release", "acq_rel", "seq_cst")
    seen = set()
    for o, rmw, I in ORD["reset"]:
        chain = rmw and o in acq
        for kind, good in (("reset", chain or o == "seq_cst"),):
            ctx.check(good, "re-arming the wake-up is ordered before looking at the stop flag", I.where(), "memory order %s" % o, key="order|reset")
        if not chain:
            for k, what in (("set", "touching"), ("stop", "recording the request"), ("look", "looking at the flag")):
                for o2, r2, J in ORD[k]:
                    if (k, J.i, J.where()) in seen: continue
                    seen.add((k, J.i, J.where()))
                    ctx.check(o2 == "seq_cst", "request, touch, re-arm and look are totally ordered", J.where(), "%s has memory order %s" % (what, o2), key="order|" + k)
        else:
            for o2, r2, J in ORD["set"]: ctx.check(o2 in rel, "touching publishes the request", J.where(), "memory order %s" % o2, key="order|set")
    ctx.need(nf, 2, "functions that wait"); ctx.need(hit.get("block", 0), 1, "blocking waits"); ctx.need(hit.get("cb", 0), 4, "callback invocations")
    ctx.need(hit.get("read", 0), 6, "reads of the stop flag")
    ctx.assumption("a pipe whose wake-up byte is pending makes the wait return (level-triggered readiness)")
    ctx.assumption("registering the pipe succeeds; a refused registration is reported by the platform's error path")
