"""Waiting for events (the epoll looper's _poll).

Typestate over all paths: the wait gets the result array and that array's own
size; an interrupted wait is repeated and any other failure returns with
nothing reported.  The conditions of a returned entry are split into all
combinations of readable, writable, error, hang-up; within one loop iteration
the event must be put on the read list exactly when it is readable (or error /
hang-up came without readability and writability), the slot is active and has
a read callback, at most once, and on the write list likewise.  Linear
arithmetic shows that the entries visited are exactly 0..n-1 of the n the
kernel returned."""
from evt import *
import num
from num import Num, St
from poly import V, fresh, Lin
LEVEL = "other"
IN, OUT, ERR, HUP = 1, 4, 8, 16
PUSH = re.compile(r"^std::vector<unsigned int.*>::(push_back|emplace_back)(<.*>)?$")
ERRNO = {"cyclone::socket_api::get_lasterror"}
EV = "epoll_event"

def evfield(a):
    """'events' / 'data' when the address is that member of an epoll_event"""
    while a[0] == "fld":
        if a[2].startswith("epoll_event."): return a[2].split(".")[-1], a[1]
        a = a[1]
    return None, None

class Poll(R0):
    # (last wait: None|neg|zero|pos, eintr None/T/F, revents, data expr, active, cbR, cbW, pushedR, pushedW, any pushed)
    NEWIT = (None, None, None, None, None, 0, 0)
    def init(s): return (None, None) + s.NEWIT + (False,)
    def keep_exprs(s, rs): return [rs[3]] if rs[3] else []
    def slotok(s, slot, rs): return slot and slot[0] == "slot" and rs[3] is not None and strip(slot[1]) == strip(rs[3])
    def step(s, st, I, W):
        wt, ei, rv, da, ac, cr, cw, pr, pw, anyp = st.rs
        if I.op == "load":
            a = W.ev(st, I.o[0])
            n, o = evfield(a)
            if n == "events":
                if rv is not None: st.mem[a] = ("const", rv); return None
                out = []
                for v in range(32):
                    c = (v & 1) * IN | (v >> 1 & 1) * OUT | (v >> 2 & 1) * ERR | (v >> 3 & 1) * HUP
                    if v >> 4: continue
                    z = st.copy(); z.mem[a] = ("const", c); z.rs = (wt, ei, c) + st.rs[3:]; out.append(z)
                return out
            if n is not None and da is None:
                st.rs = st.rs[:3] + (("ld", I.i, a),) + st.rs[4:]; return None
            m, slot = chfield(a)
            if m == "active" and s.slotok(slot, st.rs):
                if ac is not None: st.mem[a] = ("const", int(ac)); return None
                out = []
                for v in (True, False):
                    z = st.copy(); z.mem[a] = ("const", int(v)); z.rs = st.rs[:4] + (v,) + st.rs[5:]; out.append(z)
                return out
            if a[0] == "call" and a[2] == "__errno_location" and wt == "neg": return s.err(st, I, W, ("ld", I.i, a), a)
            return None
        if I.op != "call": return None
        c = I.callee or ""
        call = ("call", I.i, c, tuple(W.ev(st, o) for o in I.o))
        if c in ("epoll_wait", "epoll_pwait"):
            fd, ptr, mx, to = call[3][:4]
            objs = lambda e: {x[2] for x in subexprs(e) if x[0] == "fld"}
            arr = s.arr(st, ptr, W)
            sz = {x[2] for y in subexprs(mx) if y[0] == "call" and re.search(r"vector<epoll_event.*::size$", y[2]) for x in subexprs(y) if x[0] == "fld"}
            s.ck(bool(arr) and mx[0] == "call" and arr == sz, "the kernel is told exactly the room of the result array", I, "array %s, size %s" % (sorted(arr), sorted(sz)), W)
            s.ck(to[0] == "const" and to[1] == s.timeout, "a blocking wait waits without limit, a non-blocking one not at all", I, "timeout %s for block=%d" % (fmt(to), s.block), W)
            s.ck(wt != "neg" or ei is not False, "only an interrupted wait is repeated", I, "wait", W)
            out = []
            for k, p, v in (("neg", "slt", 0), ("zero", "eq", 0), ("pos", "sgt", 0)):
                z = st.copy(); z.facts.assume(call, p, v); z.rs = (k, None) + s.NEWIT + (anyp,); out.append(z)
            return out
        if c in ERRNO and wt == "neg": return s.err(st, I, W, call, None)
        if FTEST.search(c):
            m = slot = None
            for o in call[3]:
                m, x = fieldof(o, CH)
                if m: slot = chan(x); break
            if m not in ("on_read", "on_write") or not s.slotok(slot, st.rs): return None
            i = 5 if m == "on_read" else 6; neg = "operator==" in c; out = []
            for v in ((st.rs[i],) if st.rs[i] is not None else (True, False)):
                z = st.copy(); z.facts.assume(call, "ne" if v != neg else "eq", 0); z.rs = st.rs[:i] + (v,) + st.rs[i + 1:]; out.append(z)
            return out
        if PUSH.search(c):
            t, v = call[3][0], call[3][1]
            if v[0] == "alloca": v = st.mem.get(v, v)
            if v[0] not in ("ld",) and len(call[3]) > 1:
                # push_back(const &) / push_back(&&): the operand is the address of the element
                pass
            if t[0] != "arg" or t[1] not in (1, 2): return None
            m, slot = (None, None)
            src = v[2] if v[0] == "ld" else v
            m, slot = chfield(src)
            good = (m == "id" and s.slotok(slot, st.rs)) or (da is not None and strip(v) == strip(da)) or evfield(src)[0] == "data"
            s.ck(good, "the reported event is the one the kernel named", I, "reports %s" % fmt(v), W)
            k = t[1] - 1
            x = list(st.rs); x[7 + k] = min(2, x[7 + k] + 1); x[9] = True
            if x[2] is None: s.ck(False, "an event is reported only after looking at its conditions", I, "report", W)
            st.rs = tuple(x)
        return None
    def arr(s, st, e, W, d=0):
        out = {x[2] for x in subexprs(e) if x[0] == "fld"}
        if not out and d < 3:
            for x in subexprs(e):
                if x[0] == "alloca":
                    for k, v in st.mem.items():
                        if root(k) == x: out |= s.arr(st, v, W, d + 1)
        return out
    def err(s, st, I, W, e, addr):
        wt, ei = st.rs[:2]; out = []
        for v in ((ei,) if ei is not None else (True, False)):
            z = st.copy(); z.facts.assume(e, "eq" if v else "ne", 4); z.rs = (wt, v) + st.rs[2:]
            if addr is not None: z.mem[addr] = e
            out.append(z)
        return out
    def judge(s, st, I, W):
        wt, ei, rv, da, ac, cr, cw, pr, pw, anyp = st.rs
        if rv is None: return
        for k, bit, cb, n, nm in ((0, IN, cr, pr, "readable"), (1, OUT, cw, pw, "writable")):
            want = bool(rv & bit) or bool(rv & (ERR | HUP)) and not rv & (IN | OUT)
            what = "conditions 0x%x, active=%s, callback=%s: reported %d times %s" % (rv, ac, cb, n, nm)
            if n: s.ck(n == 1 and want and ac is True and cb is True, "an event is reported only when ready, watched and with a callback, once", I, what, W)
            else: s.ck(not (want and ac is not False and cb is not False), "a ready event reaches its handler", I, what, W)
    def backedge(s, st, b, h, W):
        if not any(PUSH.search(I.callee or "") for x in W.fn.loops.get(h, ()) for I in W.fn.blocks[x] if I.op == "call"): return
        s.judge(st, W.fn.term(b), W)
        st.rs = st.rs[:2] + s.NEWIT + (st.rs[9],)
    def exit(s, st, I, W):
        wt, ei, anyp = st.rs[0], st.rs[1], st.rs[9]
        s.judge(st, I, W)
        s.ck(wt is not None, "a poll waits", I, "return without waiting", W)
        if wt == "neg":
            s.ck(ei is False, "an interrupted wait is retried", I, "returns after a failed wait (interrupted: %s)" % {None: "not examined", True: "yes", False: "no"}[ei], W)
            s.ck(not anyp, "a failed wait reports nothing", I, "return", W)
        if wt == "zero": s.ck(not anyp, "an empty wait reports nothing", I, "return", W)

def visit(ctx, P, f):
    """the entries looked at are exactly 0 .. n-1"""
    seen = []
    size, offd = 12, 4
    def sink(rule, where, detail, trace): ctx.bad(rule, where, detail, trace, key="%s|visit" % rule)
    NX = ("p", "next", Lin(0))
    def it(E, st, I, a):
        ix = a[1] if len(a) > 1 else ("i", Lin(0), 64)
        out = []
        for s, k in E.rep(st, ix, False): out.append((s, ("p", "evbuf", k * size)))
        return out
    def buf(E, st, I, a): return [(st, ("p", "evbuf", Lin(0)))]
    def deref(E, st, I, a): return E.load(st, a[0], "ptr", I, 8)
    def incr(E, st, I, a):
        out = []
        for s, p in E.load(st, a[0], "ptr", I, 8):
            n = ("p", p[1], p[2] + size) if p[0] == "p" else p
            for s2 in E.store(s, a[0], n, I, 8): out.append((s2, a[0]))
        return out
    def plus(E, st, I, a):
        out = []
        for s, p in E.load(st, a[0], "ptr", I, 8):
            for s2, k in E.rep(s, a[1], True): out.append((s2, ("p", p[1], p[2] + k * size) if p[0] == "p" else p))
        return out
    def wait(E, st, I, a):
        v = V(fresh("n")); st.cons.add(v + 1); st.cons.add(-v + (1 << 20)); st.g["n"] = v
        out = []
        for s in E.store(st, NX, ("i", Lin(0), 64), I, 8):
            for s2 in E.store(s, ("p", "next", Lin(8)), ("i", v, 32), I, 4): out.append((s2, ("i", v, 32)))
        return out
    def vsize(E, st, I, a): return [(s, ("i", Lin(0), 64)) for s in [st]] if False else [(st, E.unknown(st, "i64", "sz"))]
    def any_(E, st, I, a):
        if I.ty == "void": return [(st, None)]
        if I.ty == "ptr": return [(st, ("p", "slot", Lin(0)))]
        return [(st, E.unknown(st, I.ty, "ret"))]
    def memcpy(E, st, I, a):
        if a[1][0] == "p" and a[1][1] == "evbuf":
            r = E.onload(st, ("p", "evbuf", a[1][2] + offd), "i32", I)
            return [(s, a[0]) for s, _ in r]
        return None
    EVV = r"(vector<epoll_event|__normal_iterator<(const )?epoll_event).*::"
    models = [(re.compile(r"^epoll_p?wait$"), wait), (re.compile(r"vector<epoll_event.*::(operator\[\]|at)$"), it), (re.compile(r"vector<epoll_event.*::(begin|cbegin|data|front)$"), buf),
              (re.compile(EVV + r"operator(\*|->)$"), deref), (re.compile(EVV + r"operator\+\+$"), incr), (re.compile(EVV + r"operator\+$"), plus),
              (re.compile(r"^(llvm\.)?memcpy"), memcpy), (re.compile(r"^(?!llvm\.)"), any_)]
    E = Num(f, sink, models, name=f.short())
    st = St()
    E.newblk(st, "lp", Lin(4096), "obj"); st.env[("a", 0)] = ("p", "lp", Lin(0))
    E.newblk(st, "slot", Lin(4096), "obj"); E.newblk(st, "evbuf", Lin(1 << 24), "obj")
    for k in range(1, len(f.args)): st.env[("a", k)] = E.unknown(st, f.args[k][1], "a%d" % k) if f.args[k][1] != "ptr" else ("p", "slot", Lin(0))
    E.newblk(st, "next", Lin(16), "obj"); st.mem[("next", 0)] = (("i", Lin(0), 64), 8); st.mem[("next", 8)] = (("i", Lin(-1), 32), 4)
    E.access = lambda *a: True
    def onload(st, p, ty, I):
        if p[1] == "evbuf":
            s2 = [(st, E.unknown(st, ty, "ev"))]
            if ty == "i64" or ty == "i32" and not isinstance(p[2], int):
                nx = st.mem[("next", 0)][0][1]
                isdata = not st.ent((p[2] - nx * size)) or not st.ent(nx * size - p[2])
                d = p[2] - nx * size
                if st.ent(d) and st.ent(-d): pass                        # the conditions of the next entry
                elif st.ent(d - offd) and st.ent(-d + offd):             # its data: the entry is taken
                    seen.append(1)
                    n = st.mem[("next", 8)][0][1]
                    E.oblige(st, [n - nx - 1], "only entries the kernel filled are looked at", I, "entry index below the number returned")
                    st.mem[("next", 0)] = (("i", nx + 1, 64), 8)
                elif st.ent(d + size) and st.ent(-d - size) or st.ent(d + size - offd) and st.ent(-d - size + offd): pass   # again the entry just taken
                else: E.report(st, "every returned entry is looked at once, in order", I, "an entry is skipped or repeated")
            return s2
        if p[1] in ("slot", "lp"): return [(st, E.unknown(st, ty, "u") if ty != "ptr" else ("p", "slot", Lin(0)))]
        return None
    E.onload = onload
    E.ranks = lambda: None
    E.UNROLL = 0
    try:
        E.run(st)
        for r in E.rets:
            s = r[0] if isinstance(r, tuple) else r
            nx = s.mem[("next", 0)][0][1]; n = s.mem[("next", 8)][0][1]
            I = f.blocks[max(b for b in f.reach if f.term(b).op == "ret")][-1]
            pos = s.copy()
            if pos.assume(n - 1): E.oblige(pos, [nx - n, n - nx], "every returned entry is looked at once, in order", I, "all of the entries returned were visited")
    except num.Refuted: pass
    finally: num.disarm()
    for k, okk in E.seen_obl.items():
        if okk: ctx.ok(k[0], f.ins[k[1]].where() if k[1] in f.ins else f.file, k[2])
    ctx.need(len(seen), 1, "entries taken in the arithmetic analysis")

def run(ctx):
    P = ctx.program()
    f = P.one("cyclone::Looper_epoll::_poll")
    lay = [x for x in P.types.get("epoll_event", [])]
    ctx.need(sum(1 for I in f.calls(lambda I: PUSH.search(I.callee or ""))), 2, "places that report an event")
    hit = {}
    for block, to in ((1, -1), (0, 0)):
        R = Poll(ctx, f); R.block = block; R.timeout = to
        W = Walker(f, R, pure=re.compile(PUREV.pattern + "|^epoll_p?wait$"), argconst={3: block}).run(); ctx.count("abstract states", W.visited)
        for k, v in R.hit.items(): hit[k] = hit.get(k, 0) + v
    ctx.need(hit.get("a ready event reaches its handler", 0), 20, "evaluated combinations of conditions")
    visit(ctx, P, f)
