"""Kernel interest vs recorded interest.

_update_channel_add_event / _update_channel_remove_event of the epoll looper
are analysed once for every recorded interest (none, read, write, both) and
every interest they are called with, over all paths: callbacks present or
absent, epoll_ctl accepted or refused.  An abstract kernel entry (watched or
not, condition mask) is carried along; epoll_ctl ADD is legal only when the
descriptor is not watched, MOD and DEL only when it is.  At every return the
entry must be exactly what the recorded interest and callbacks demand, the
active mark and the active count must agree with it, and a refused call must
leave everything as it was.  The public functions that change interest are
checked to pass exactly the bits they stand for, for the slot they were given.
Assumes the entry was right before the call (holds for a fresh slot: C10)."""
from evt import *
from ir import State
LEVEL = "other"
IN, OUT, PRI, ERR, HUP, RDHUP = 1, 4, 2, 8, 16, 0x2000
ADD, DEL, MOD = 1, 2, 3
EPURE = re.compile(PUREV.pattern + r"|^cyclone::Pipe::write$|^epoll_ctl$")

class Upd(R0):
    def __init__(s, ctx, f, kind, e0, arg):
        R0.__init__(s, ctx, f); s.kind = kind; s.e0 = e0; s.arg = arg
        s.ch = argx(f, 1)
        s.name = "%s(recorded=%d, event=%d)" % (f.short(), e0, arg)
    def ck(s, c, rule, I, what, W):
        s.hit[rule] = s.hit.get(rule, 0) + 1
        return s.ctx.check(c, rule, I.where(), "%s: %s" % (s.name, what), W.trace(), key="%s|%s" % (rule, s.f.short()))
    def keepmem(s, k): return k[0] == "fld" and "epoll" in k[2] or lpfield(k) == "m_active_channel_counts"
    # rs: event, active, count delta, watched, mask (None = as before), cbR, cbW (None unknown), refused, ctl calls
    def init(s): return (s.e0, int(s.e0 != 0), 0, s.e0 != 0, None, None, None, False, 0)
    def step(s, st, I, W):
        ev, ac, d, wa, ma, cr, cw, ref, n = st.rs
        if I.op == "store":
            a = W.ev(st, I.o[1]); v = W.ev(st, I.o[0])
            m, o = fieldof(a, CH)
            if m and o == s.ch:
                c = v[1] if v[0] == "const" else None
                if m == "event": st.rs = (c, ac, d, wa, ma, cr, cw, ref, n)
                elif m == "active": st.rs = (ev, None if c is None else int(bool(c)), d, wa, ma, cr, cw, ref, n)
                elif m not in ("next", "prev"): s.ck(False, "switching interest changes nothing else of the slot", I, "store to .%s" % m, W)
            elif lpfield(a) == "m_active_channel_counts":
                k = None
                if v[0] == "bin" and v[3][0] == "const" and v[2][0] == "ld" and lpfield(v[2][2]) == "m_active_channel_counts":
                    k = v[3][1] if v[1] == "add" else -v[3][1] if v[1] == "sub" else None
                elif v[0] == "ld" and lpfield(v[2]) == "m_active_channel_counts": k = 0
                cur = st.mem.get(a)
                s.ck(k is not None and (cur is None or v[0] == "ld" or strip(cur) == strip(v[2])), "the active count is adjusted by one", I, "active count", W)
                st.rs = (ev, ac, d + (k or 0), wa, ma, cr, cw, ref, n)
            return None
        if I.op != "call": return None
        c = I.callee or ""
        if FTEST.search(c):
            m, o = None, None
            for op in I.o:
                m, o = fieldof(W.ev(st, op), CH)
                if m: break
            if m not in ("on_read", "on_write") or o != s.ch: return None
            neg = "operator==" in c
            call = ("call", I.i, c, tuple(W.ev(st, x) for x in I.o))
            i = 5 if m == "on_read" else 6
            out = []
            for v in ((st.rs[i],) if st.rs[i] is not None else (True, False)):
                z = st.copy(); z.facts.assume(call, "ne" if v != neg else "eq", 0)
                z.rs = st.rs[:i] + (v,) + st.rs[i + 1:]; out.append(z)
            return out
        if c == "epoll_ctl":
            fd, op, t, evp = (W.ev(st, x) for x in I.o)
            s.ck(fd[0] == "ld" and last_field(fd[2]) == "m_eoll_fd" or fd[0] == "ld" and "epoll" in str(fd[2]).lower(), "the looper's own poll descriptor is used", I, "epoll_ctl", W)
            s.ck(t[0] == "ld" and fieldof(t[2], CH) == ("fd", s.ch), "the event's own descriptor is watched", I, "epoll_ctl", W)
            s.ck(op[0] == "const" and op[1] in (ADD, DEL, MOD), "the operation is decided on every path", I, "epoll_ctl", W)
            if op[0] != "const": return None
            op = op[1]
            s.ck(wa == (op != ADD), "adds only unwatched and changes only watched descriptors", I, "epoll_ctl %s while %swatched" % ({1: "ADD", 2: "DEL", 3: "MOD"}[op], "" if wa else "not "), W)
            mask = ma
            if op != DEL:
                mv = dv = None
                for k, v in st.mem.items():
                    if k[0] == "fld" and strip(k[1]) == strip(evp):
                        if k[2].endswith(".events"): mv = v
                        else: dv = v
                    elif k[0] == "fld" and k[1][0] == "fld" and strip(k[1][1]) == strip(evp): dv = v
                s.ck(mv is not None and mv[0] == "const", "the watched conditions are decided on every path", I, "epoll_ctl", W)
                s.ck(dv is not None and dv[0] == "ld" and fieldof(dv[2], CH) == ("id", s.ch), "the kernel reports the event under its own id", I, "epoll data", W)
                mask = mv[1] & 0xffffffff if mv and mv[0] == "const" else 0
                s.ck(mask & ~(IN | OUT | PRI | RDHUP | ERR | HUP) == 0, "conditions are level triggered and persistent", I, "mask 0x%x" % mask, W)
                s.ck(not mask & (PRI | RDHUP) or mask & IN, "read conditions come with read interest", I, "mask 0x%x" % mask, W)
            call = ("call", I.i, c, tuple(W.ev(st, x) for x in I.o))
            b = st.copy()
            st.facts.assume(call, "eq", 0); st.rs = (ev, ac, d, op != DEL, mask, cr, cw, ref, n + 1)
            b.facts.assume(call, "eq", -1); b.rs = (ev, ac, d, wa, ma, cr, cw, True, n + 1)
            return [st, b]
        return None
    def exit(s, st, I, W):
        ev, ac, d, wa, ma, cr, cw, ref, n = st.rs
        e0, a0 = s.e0, int(s.e0 != 0)
        s.ck(ev is not None and ac is not None, "the recorded interest is decided on every path", I, "return", W)
        if ev is None or ac is None: return
        what = "recorded %d->%d, active %d->%d, watched=%s mask=%s" % (e0, ev, a0, ac, wa, "unchanged" if ma is None else hex(ma))
        s.ck(n <= 1 or not ref, "at most one kernel change per request", I, what, W)
        if ref:
            s.ck((ev, ac, d) == (e0, a0, 0), "a refused change leaves the recorded interest as it was", I, what, W); return
        s.ck(d == ac - a0, "the active count follows the active mark", I, "%s, count %+d" % (what, d), W)
        s.ck(ac == int(wa), "the active mark says whether the kernel watches the descriptor", I, what, W)
        s.ck(wa == (ev != 0), "a descriptor is watched iff it has an interest", I, what, W)
        want = e0 | s.arg if s.kind == "add" else e0 & ~s.arg
        def cb(bit): return cr if bit == 1 else cw
        for bit in (1, 2):
            # a missing interest is excused only when it has no callback (the kernel would not be asked anyway)
            if (want ^ ev) & bit: s.ck(not ev & bit and cb(bit) is False, "the requested interest is recorded", I, what, W)
            kb = IN if bit == 1 else OUT
            if wa:
                if ma is None: good = not (ev ^ e0) & bit or cb(bit) is False
                else: good = all(bool(ma & kb) == bool(ev & bit and v) for v in ((cb(bit),) if cb(bit) is not None else (True, False)))
                s.ck(good, "the kernel watches exactly the recorded interests that have a callback", I, what, W)

class Pub(R0):
    """a public function passes the right bits"""
    def __init__(s, ctx, f, want, idarg, name):
        R0.__init__(s, ctx, f); s.want = want; s.idarg = idarg; s.name = name
    def ck(s, c, rule, I, what, W):
        return s.ctx.check(c, rule, I.where(), "%s: %s" % (s.name, what), W.trace(), key="%s|%s" % (rule, s.f.short()))
    def init(s): return (frozenset(), 0)
    def branch(s, st, t, c, val, W):
        if on_assert(s.f, t): return
        only = State(()); W.assume(only, c, val)
        calls, off = st.rs
        for e in only.facts.m:
            for x in subexprs(e):
                if x[0] == "ld" and chfield(x[2])[0] == "event": off |= bits_known(W, only, x)[1]
        st.rs = (calls, off)
    def step(s, st, I, W):
        if I.op != "call": return None
        m = re.search(r"::_update_channel_(add|remove)_event$", I.callee or "")
        if not m: return None
        slot = chan(W.ev(st, I.o[1])); b = W.ev(st, I.o[2])
        if s.idarg is not None:
            s.ck(slot and slot[0] == "slot" and strip(slot[1]) == strip(argx(s.f, s.idarg)), "interest is switched for the slot that was named", I, "poll update", W)
        bits = b[1] if b[0] == "const" else "recorded" if b[0] == "ld" and chfield(b[2])[0] == "event" else None
        s.ck(bits is not None, "the interest to switch is decided on every path", I, "poll update", W)
        st.rs = (st.rs[0] | {(m.group(1), bits)}, st.rs[1])
    def exit(s, st, I, W):
        calls, off = st.rs
        add = rem = 0
        for k, b in calls:
            b = 3 if b == "recorded" else b or 0
            if k == "add": add |= b
            else: rem |= b
        if s.idarg is not None and st.facts.get(argx(s.f, s.idarg))[:2] == (-1, -1):
            s.ck(not calls, "an invalid id changes nothing", I, "return", W); return
        if s.want[0] == "add": s.ck(add == s.want[1] and rem == 0, "exactly the requested interest is switched on", I, "on %d, off %d, wanted on %d" % (add, rem, s.want[1]), W)
        elif s.want[0] == "remove": s.ck((rem | off) & s.want[1] == s.want[1] and rem & ~s.want[1] == 0 and add == 0, "exactly the named interest is switched off", I, "on %d, off %d, wanted off %d" % (add, rem, s.want[1]), W)
        elif s.want[0] == "query":
            s.ck(not calls, "a query changes nothing", I, "return", W)

class Query(R0):
    def __init__(s, ctx, f, bit, e0): R0.__init__(s, ctx, f); s.bit = bit; s.e0 = e0
    def step(s, st, I, W):
        if I.op == "load":
            m, o = chfield(W.ev(st, I.o[0]))
            if m == "event":
                s.ck(o and o[0] == "slot" and strip(o[1]) == strip(argx(s.f, 1)), "the interest of the named slot is reported", I, "query", W)
                st.mem[W.ev(st, I.o[0])] = ("const", s.e0)
    def exit(s, st, I, W):
        r = W.truth(st, W.ev(st, I.o[0]))
        inv = st.facts.get(argx(s.f, 1))[:2] == (-1, -1)
        s.ck(r == (False if inv else bool(s.e0 & s.bit)), "a query reports the recorded interest", I, "recorded %d: returns %s" % (s.e0, r), W)

def run(ctx):
    P = ctx.program()
    n = 0
    for kind in ("add", "remove"):
        f = P.one("cyclone::Looper_epoll::_update_channel_%s_event" % kind)
        ctl = sum(1 for _ in f.calls("epoll_ctl"))
        ctx.need(ctl, 1, "epoll_ctl calls in " + f.short())
        ch = argx(f, 1)
        for e0 in range(4):
            for a in (1, 2, 3):
                R = Upd(ctx, f, kind, e0, a)
                mem = {("fld", ch, CH + ".event"): ("const", e0), ("fld", ch, CH + ".active"): ("const", int(e0 != 0))}
                W = Walker(f, R, pure=EPURE, argconst={2: a}, mem=mem).run(); n += W.visited
    ctx.count("abstract states", n)
    tab = {"enable_read": ("add", 1), "enable_write": ("add", 2), "disable_read": ("remove", 1), "disable_write": ("remove", 2), "disable_all": ("remove", 3)}
    for name, want in tab.items():
        f = P.one("cyclone::Looper::" + name)
        Walker(f, Pub(ctx, f, want, 1, name), pure=PUREV).run()
    for name, bit in (("is_read", 1), ("is_write", 2)):
        f = P.one("cyclone::Looper::" + name)
        Walker(f, Pub(ctx, f, ("query", 0), 1, name), pure=PUREV).run()
        for e0 in range(4): Walker(f, Query(ctx, f, bit, e0), pure=PUREV).run()
    f = P.one("cyclone::Looper::register_event")
    for e in range(4):
        Walker(f, Pub(ctx, f, ("add", e), None, "register_event(event=%d)" % e), pure=PUREV, argconst={2: e}).run()
    f = P.one("cyclone::Looper::register_timer_event")
    class T(Pub):
        def exit(s, st, I, W):
            r = W.ev(st, I.o[0])
            if r[0] == "const": s.ck(not st.rs[0], "exactly the requested interest is switched on", I, "failed registration", W)
            else: Pub.exit(s, st, I, W)
    Walker(f, T(ctx, f, ("add", 1), None, "register_timer_event"), pure=PUREV).run()
    # nobody else writes the recorded interest
    own = {"cyclone::Looper_epoll::_update_channel_add_event", "cyclone::Looper_epoll::_update_channel_remove_event", "cyclone::Looper::register_event", "cyclone::Looper::register_timer_event"}
    k = 0
    for f in roots(P):
        for I in f.all():
            if I.op == "store":
                m, o = fieldof(static_ev(f, I.o[1]), CH)
                if m in ("event", "active"):
                    k += 1; ctx.check(f.base in own, "the recorded interest changes only together with the kernel's", I.where(), "%s writes .%s" % (f.short(), m), key="owner|" + f.short())
            if I.op == "call" and I.callee == "epoll_ctl":
                ctx.check(f.base in own, "the kernel's interest changes only together with the recorded one", I.where(), f.short(), key="ctl|" + f.short())
    ctx.need(k, 6, "stores to the recorded interest")
