"""Event slots: typestate of the free list over registration and deletion.

register_event / register_timer_event: a path takes a slot by moving the list
head to the `next` of the slot the head designates (the head known to be valid,
or the table just grown); at every return either the returned id is that slot
and every slot member read anywhere in the library was stored, or the slot was
linked back in front of the list.  Slot addresses obtained before the table
grew are never used afterwards.  delete_event: an invalid id has no effect;
otherwise both interests are known off before the slot is linked back exactly
once, and a timer's descriptor and object are released exactly once, iff the
slot is a timer.  Growth: the element appended at position n carries id n (linear
arithmetic over the vector's size) and is linked in front of the old list."""
from evt import *
from locks import static_ev
import num
from num import Num, St
from poly import V, fresh, Lin
LEVEL = "other"
HEAD = LP + ".m_free_head"
UPD = re.compile(r"::_update_channel_(add|remove)_event$|^virtual:.*")
INV = -1

def headaddr(e): return e[0] == "fld" and e[2] == HEAD

def isvirt(I, name):
    vc = I.j.get("vc")
    if I.callee and I.callee.endswith("::" + name): return True
    return False

def upd(I):
    if I.op != "call" or not I.callee: return None
    m = re.search(r"::_update_channel_(add|remove)_event$", I.callee)
    return m.group(1) if m else None

class Reg(R0, Stale):
    def __init__(s, ctx, f, need, updneed, timer):
        R0.__init__(s, ctx, f); s.need = need; s.updneed = updneed; s.timer = timer
    # rs = (held idx expr, inited frozenset, vals frozenset of (member, value), gone, seen, grown, pend, oldlink, given)
    def init(s): return (None, frozenset(), frozenset(), frozenset(), frozenset(), False, None, None)
    def keep_exprs(s, rs): return [x for x in (rs[0],) if x] + [v for _, v in rs[2]]
    def head(s, st, W):
        for k, v in st.mem.items():
            if headaddr(k): return v
        return None
    def isheld(s, slot, rs): return slot and slot[0] == "slot" and rs[0] is not None and strip(slot[1]) == strip(rs[0])
    def setm(s, st, m, v):
        h, ini, vals, gone, seen, gr, pend, lk = st.rs
        st.rs = (h, ini | {m}, frozenset(x for x in vals if x[0] != m) | {(m, v)}, gone, seen, gr, pend, lk)
    def val(s, st, m):
        for k, v in st.rs[2]:
            if k == m: return v
    def step(s, st, I, W):
        h, ini, vals, gone, seen, gr, pend, lk = st.rs
        if I.op in ("load", "store", "call"):
            bad = s.use(st, I, W, gone)
            if bad: s.ck(False, "no slot address is used after the slot table grew", I, "address taken before the growth", W)
        if I.op == "store":
            a = W.ev(st, I.o[1]); v = W.ev(st, I.o[0])
            if headaddr(a):
                cur = s.head(st, W)
                if cur is None: cur = ("opaque", "head")
                nx, slot = chfield(v[2]) if v[0] == "ld" else (None, None)
                if nx == "next" and slot and slot[0] == "slot":
                    # take
                    s.ck(strip(slot[1]) == strip(cur), "a slot is taken from the front of the free list", I, "the list head moves to the slot behind the taken one", W)
                    lo, hi, ex = st.facts.get(slot[1]); c2 = st.facts.get(cur)
                    ok = gr or INV in ex or INV in c2[2] or (1 << 32) - 1 in ex or lo > INV and False
                    s.ck(ok, "a slot is taken only from a non-empty free list", I, "the head is known to be valid, or the table has just grown", W)
                    s.ck(h is None, "exactly one slot is taken", I, "takes a slot", W)
                    s.ck(pend is None and lk is None, "every grown slot is appended", I, "take", W)
                    st.rs = (slot[1], frozenset(), frozenset(), gone, seen, gr, None, None); return None
                m, slot = chfield(v[2]) if v[0] == "ld" else (None, None)
                own = m == "id" and s.isheld(slot, st.rs) and (s.val(st, "id") is None or strip(s.val(st, "id")) == strip(h))     # the number the slot carries
                if h is not None and (strip(v) == strip(h) or own):
                    # give back
                    n = s.val(st, "next")
                    s.ck(n is not None and strip(n) == strip(cur), "a slot is given back in front of the free list", I, "its next designates the old head when it becomes the head", W)
                    st.rs = (None, frozenset(), frozenset(), gone, seen, gr, None, None); return None
                if lk == "link":
                    st.rs = (h, ini, vals, gone, seen, gr, None, None)
                    s.ck(any(strip(v) == strip(x) for k, x in vals if k == "@id"), "a grown slot is linked in front of the free list", I, "head becomes the appended slot", W); return None
                s.ck(pend is None, "every grown slot is appended", I, "head moves again before the slot was appended", W)
                st.rs = (h, ini, vals, gone, seen, gr, (v, cur), None); return None
            m, slot = chfield(a)
            if m:
                if s.isheld(slot, st.rs): s.setm(st, m, v)
                elif slot and slot[0] == "slot":
                    s.ck(False, "only the taken slot is written", I, "store to .%s of another slot" % m, W)
            return None
        if I.op != "call": return None
        c = I.callee or ""
        if GROW.search(c):
            k = c.split("::")[-1].split("<")[0]
            st.rs = (h, ini, vals, gone | seen, seen, True, pend, lk)
            if k in ("push_back", "emplace_back"):
                loc = W.ev(st, I.o[1]); g = lambda n: st.mem.get(("fld", loc, CH + "." + n))
                iid, nxt = g("id"), g("next")
                s.ck(lk is None, "a grown slot is linked in front of the free list", I, "the previous slot was linked", W)
                if pend:
                    good = iid is not None and strip(iid) == strip(pend[0]) and nxt is not None and strip(nxt) == strip(pend[1])
                    s.ck(good, "a grown slot is linked in front of the free list", I, "next is the old head, the head is the new slot", W)
                    st.rs = (h, ini, vals, gone | seen, seen, True, None, None)
                else:
                    cur = s.head(st, W)
                    s.ck(nxt is not None and cur is not None and strip(nxt) == strip(cur), "a grown slot is linked in front of the free list", I, "next is the old head", W)
                    st.rs = (h, ini, frozenset(x for x in vals if x[0] != "@id") | {("@id", iid)}, gone | seen, seen, True, None, "link")
            elif k != "reserve":
                s.ck(k not in ("erase", "clear", "swap", "shrink_to_fit", "assign", "insert", "resize", "operator="), "the slot table only grows by appending", I, k, W)
            return None
        e = ("call", I.i, c, tuple(W.ev(st, o) for o in I.o))
        if chan(e) and chan(e)[0] == "slot":
            st.rs = (h, ini, vals, gone - {I.i}, seen | {I.i}, gr, pend, lk); return None
        if FCOPY.search(c) and "::operator=" in c:
            m, o = fieldof(W.ev(st, I.o[0]), CH)
            if m and s.isheld(chan(o), st.rs): s.setm(st, m, W.ev(st, I.o[1]) if len(I.o) > 1 else NULL)
            return None
        if re.search(r"channel_s::operator=$", c) and s.isheld(chan(W.ev(st, I.o[0])), st.rs):
            src = W.ev(st, I.o[1])
            for k, v in list(st.mem.items()):
                n, o = fieldof(k, CH)
                if n and strip(o) == strip(src): s.setm(st, n, v)
            for n in s.need: 
                if s.val(st, n) is None: s.setm(st, n, ("opaque", "copied"))
            return None
        u = upd(I)
        if u:
            slot = chan(W.ev(st, I.o[1]))
            s.ck(u == "add" and s.isheld(slot, st.rs), "interest is switched on for the taken slot", I, "poll update", W)
            s.ready(st, I, W, s.updneed)
            # the callee changes the recorded interest
            for m in ("event", "active"):
                if m in ini: s.setm(st, m, ("opaque", "updated"))
        return None
    def ready(s, st, I, W, need):
        miss = sorted(need - st.rs[1])
        s.ck(not miss, "every member used by dispatch is initialised", I, "not set: %s" % ", ".join(miss), W)
        idv = s.val(st, "id"); s.ck(idv is not None and (strip(idv) == strip(st.rs[0]) or idv == ("opaque", "copied")), "a slot records its own index as id", I, "id", W)
        upd = ("opaque", "updated")
        for m, want in (("event", NULL), ("active", NULL)):
            v = s.val(st, m)
            s.ck(v in (NULL, upd, ("opaque", "copied")), "a fresh slot records no interest before the poll is told", I, ".%s starts at 0" % m, W)
        t = s.val(st, "timer"); par = s.val(st, "param")
        s.ck(t is not None and (t == ("opaque", "copied") or t[0] == "const" and bool(t[1]) == s.timer), "a slot is marked as timer iff it owns a timer", I, "timer mark", W)
        if s.timer:
            s.ck(par is not None and par[0] == "call" and par[2] == "operator new", "a timer slot owns the timer it was given", I, "param", W)
            w = s.val(st, "on_read"); ok = w is not None and w[0] in ("glob", "cast", "alloca")
        else:
            ex = {"fd": 1, "param": 3, "on_read": 4, "on_write": 5}
            for m, k in ex.items():
                v = s.val(st, m)
                s.ck(v is not None and (root(v) == argx(s.f, k) or v == ("opaque", "copied") or v[0] == "alloca"), "a slot carries what the caller registered", I, ".%s is the caller's argument" % m, W)
    def exit(s, st, I, W):
        h, ini, vals, gone, seen, gr, pend, lk = st.rs
        s.ck(pend is None and lk is None, "every grown slot is appended", I, "return", W)
        r = W.ev(st, I.o[0])
        if h is None:
            s.ck(r[0] == "const", "an id is returned only for the taken slot", I, "return without holding a slot", W)
            s.ck(r == ("const", INV) or r == ("const", (1 << 32) - 1) or r[0] != "const", "failure is reported as the invalid id", I, "return", W)
            return
        s.ck(strip(r) == strip(h), "the taken slot is returned or given back", I, "returns %s while holding slot %s" % (fmt(r), fmt(h)), W)
        if strip(r) == strip(h): s.ready(st, I, W, s.need)

class Del(R0, Stale):
    # rs = (off bits, timer known, closed, deleted, gave, next value, events known loads)
    def init(s): return (0, None, 0, 0, 0, None, False)
    def keep_exprs(s, rs): return [rs[5]] if rs[5] else []
    def mine(s, slot): return slot and slot[0] == "slot" and strip(slot[1]) == strip(argx(s.f, 1))
    def branch(s, st, t, c, val, W):
        if on_assert(s.f, t): return
        off, tm, cl, de, gv, nx, sd = st.rs
        only = State(()); W.assume(only, c, val)             # what this branch itself establishes
        for e, (lo, hi, ex) in only.facts.m.items():
            for x in subexprs(e):
                if x[0] == "ld" and x[2][0] == "fld":
                    m, slot = chfield(x[2])
                    if m == "event" and s.mine(slot): off |= bits_known(W, only, x)[1]
                    if m == "timer" and s.mine(slot) and e == x:
                        tm = False if lo == hi == 0 else True if lo > 0 or 0 in ex or hi < 0 else tm
                    if m == "param" and s.mine(slot) and e == x and lo == hi == 0: de = 1      # deleting a null object is no object
                    if m == "timer" and e[0] == "bin" and e[1] == "and" and e[2] == x:
                        tm = False if lo == hi == 0 else True if lo > 0 or 0 in ex else tm
        st.rs = (off, tm, cl, de, gv, nx, sd)
    def step(s, st, I, W):
        off, tm, cl, de, gv, nx, sd = st.rs
        if I.op == "store":
            a = W.ev(st, I.o[1]); v = W.ev(st, I.o[0])
            if headaddr(a):
                own = v[0] == "ld" and chfield(v[2])[0] == "id" and s.mine(chfield(v[2])[1])
                s.ck(own or strip(v) == strip(argx(s.f, 1)), "the deleted slot goes back to the free list", I, "head becomes the deleted id", W)
                cur = next((x for k, x in st.mem.items() if headaddr(k)), None)
                s.ck(nx is not None and cur is not None and strip(nx) == strip(cur), "a slot is given back in front of the free list", I, "its next designates the old head", W)
                s.ck(off & 3 == 3, "every interest is off before the slot is free", I, "interest bits known off: %d" % off, W)
                inv = st.facts.get(argx(s.f, 1))
                s.ck(INV in inv[2], "deleting an invalid id has no effect", I, "give back", W)
                st.rs = (off, tm, cl, de, gv + 1, nx, sd); return None
            m, slot = chfield(a)
            if m == "next" and s.mine(slot): st.rs = (off, tm, cl, de, gv, v, sd)
            elif m and slot and slot[0] == "slot" and m not in ("prev",):
                s.ck(s.mine(slot), "only the deleted slot is written", I, "store to .%s" % m, W)
            return None
        if I.op != "call": return None
        c = I.callee or ""
        u = upd(I)
        if u:
            slot = chan(W.ev(st, I.o[1])); b = W.ev(st, I.o[2])
            s.ck(u == "remove" and s.mine(slot), "deleting only switches interests of the deleted slot off", I, u, W)
            off |= b[1] & 3 if b[0] == "const" else 3 if b[0] == "ld" and chfield(b[2])[0] == "event" else 0
            st.rs = (off, tm, cl, de, gv, nx, sd)
        elif c == "cyclone::socket_api::close_socket" or c == "close":
            v = W.ev(st, I.o[0])
            ok = v[0] == "ld" and chfield(v[2])[0] == "fd" and s.mine(chfield(v[2])[1])
            s.ck(ok and tm is True, "only a timer's own descriptor is closed", I, "close on a path that knows the slot is a timer", W)
            s.ck(off & 3 == 3, "the interests are off before the descriptor is closed", I, "close", W)
            st.rs = (off, tm, cl + 1, de, gv, nx, sd)
        elif c == "operator delete":
            v = W.ev(st, I.o[0])
            if v[0] == "ld" and chfield(v[2])[0] == "param" and s.mine(chfield(v[2])[1]):
                s.ck(tm is True, "only a timer's object is deleted", I, "delete on a path that knows the slot is a timer", W)
                st.rs = (off, tm, cl, de + 1, gv, nx, sd)
            else: s.ck(False, "only a timer's object is deleted", I, "delete of something else", W)
        return None
    def exit(s, st, I, W):
        off, tm, cl, de, gv, nx, sd = st.rs
        lo, hi, ex = st.facts.get(argx(s.f, 1))
        if lo == hi == INV:
            s.ck(gv == cl == de == 0, "deleting an invalid id has no effect", I, "return", W); return
        s.ck(gv == 1, "the deleted slot goes back to the free list", I, "given back %d times" % gv, W)
        s.ck(cl == de == (1 if tm else 0), "a timer's descriptor and object are released exactly once", I, "timer=%s: closed %d, deleted %d" % (tm, cl, de), W)

def growth(ctx, P, f):
    seen = []
    def sink(rule, where, detail, trace): ctx.bad(rule, where, detail, trace, key="%s|growth" % rule)
    SZ = ("p", "vec", Lin(0))
    def size(E, st, I, a): return [(s, v) for s, v in E.load(st, SZ, "i64", I, 8)]
    def push(E, st, I, a):
        out = []; seen.append(1)
        off = next(x[0] for x in P.types[CH] if x[2] == "id")
        for s, n in [(x, v) for x, w in E.load(st, SZ, "i64", I, 8) for x, v in E.rep(x, w, False)]:
            if not s.assume(-n + (1 << 31)): continue
            for s2, i in [(x, v) for x, w in E.load(s, ("p", a[1][1], a[1][2] + off), "i32", I, 4) for x, v in E.rep(x, w, False)]:
                E.oblige(s2, [i - n, n - i], "the slot appended at position n has id n", I, "append")
                for s3 in E.store(s2, SZ, ("i", n + 1, 64), I, 8): out.append((s3, None))
        return out
    def elem(E, st, I, a): return [(st, ("p", "slot", Lin(0)))]
    def any_(E, st, I, a): return [(st, E.unknown(st, I.ty, "ret") if I.ty not in ("void", "ptr") else None if I.ty == "void" else ("p", "slot", Lin(0)))]
    models = [(re.compile(r"vector<cyclone::Looper::channel_s.*::size$"), size), (re.compile(r"vector<cyclone::Looper::channel_s.*::(push_back|emplace_back)(<.*>)?$"), push),
              (re.compile(r"vector<cyclone::Looper::channel_s.*::(operator\[\]|at|data|front|back|begin)$"), elem), (re.compile(r"^(?!llvm\.)"), any_)]
    E = Num(f, sink, models, name=f.short())
    st = St()
    E.newblk(st, "lp", Lin(1024), "obj"); st.env[("a", 0)] = ("p", "lp", Lin(0))
    for k in range(1, len(f.args)): st.env[("a", k)] = E.unknown(st, f.args[k][1], "a%d" % k)
    E.newblk(st, "vec", Lin(8), "obj"); n = V(fresh("size")); st.cons.add(n); st.cons.add(-n + (1 << 30)); st.mem[("vec", 0)] = (("i", n, 64), 8)
    E.newblk(st, "slot", Lin(4096), "obj")
    E.access = lambda *a: True
    E.onload = lambda st, p, ty, I: None if p[1] not in ("slot", "lp") else [(st, E.unknown(st, ty, "u") if ty != "ptr" else ("p", "slot", Lin(0)))]
    E.ranks = lambda: None
    try: E.run(st)
    except num.Refuted: pass
    finally: num.disarm()
    for k, okk in E.seen_obl.items():
        if okk: ctx.ok(k[0], f.ins[k[1]].where() if k[1] in f.ins else f.file, k[2])
    ctx.need(len(seen), 1, "appends seen by the arithmetic analysis")

def run(ctx):
    P = ctx.program()
    rd = read_members(P)
    need = set(rd) - {"next", "prev"}
    for m in ("id", "fd", "event", "param", "active", "timer", "on_read", "on_write"):
        if m not in need: raise Vanished("no function reads slot member %s" % m)
    updneed = {m for m, fs in rd.items() if any(re.search("_update_channel_add_event$", x) for x in fs)} - {"next", "prev"}
    ctx.need(len(updneed), 5, "slot members used by the poll update")
    takes = gives = 0
    for name, tm in (("register_event", False), ("register_timer_event", True)):
        f = P.one("cyclone::Looper::" + name)
        R = Reg(ctx, f, need, updneed, tm)
        W = Walker(f, R, pure=PUREV).run(); ctx.count("abstract states", W.visited)
        takes += R.hit.get("a slot is taken from the front of the free list", 0); gives += R.hit.get("a slot is given back in front of the free list", 0)
        if not R.hit.get("a slot is taken from the front of the free list"): ctx.bad("exactly one slot is taken", f.file, name + " never takes a slot")
        growth(ctx, P, f)
    f = P.one("cyclone::Looper::delete_event")
    W = Walker(f, Del(ctx, f), pure=PUREV).run(); ctx.count("abstract states", W.visited)
    # nobody else touches the free list
    known = {"cyclone::Looper::register_event", "cyclone::Looper::register_timer_event", "cyclone::Looper::delete_event", "cyclone::Looper::Looper"}
    n = 0
    for f in roots(P):
        for I in f.all():
            if I.op == "store" and headaddr(static_ev(f, I.o[1])):
                n += 1
                ctx.check(f.base in known, "the free list is only changed by registration and deletion", I.where(), f.short(), key="owner|" + f.short())
            if I.op == "store" and f.base == "cyclone::Looper::Looper" and headaddr(static_ev(f, I.o[1])):
                v = static_ev(f, I.o[0]); ctx.check(v[0] == "const" and v[1] in (INV, (1 << 32) - 1), "a new looper has an empty free list", I.where(), "constructor")
    ctx.need(n, 4, "stores to the free list head")
    ctx.cover.update({"slot members read": sorted(need), "takes": takes, "gives": gives})
