"""Typestate analysis of every instantiation of the lock-free queue's push and pop. The roles of the
index fields are derived from how they are used; on every control path the claim (compare-exchange on the write index), the slot store,
the publication (compare-exchange on the visible index) and the count update must follow the hand-off protocol, and the
path condition at the claim must exclude a full queue (at the consumer's claim: an empty one) - decided by evaluating the
branch conditions on the path for every residue of the indices. Memory orders must be at least release on hand-off and
acquire on observation."""
from ir import *
LEVEL = "other"
REL = {"release", "acq_rel", "seq_cst"}; ACQ = {"acquire", "acq_rel", "seq_cst"}
M32 = (1 << 32) - 1

def ex(e, asg):
    """value of a pure 32 bit expression under an assignment, None if it depends on anything else"""
    if e in asg: return asg[e]
    k = e[0]
    if k == "const": return e[1] & M32
    if k == "cmp":
        a = ex(e[2], asg); b = ex(e[3], asg)
        if a is None or b is None: return None
        p = e[1]
        if p[0] == "s":
            a, b = [x - (1 << 32) if x >> 31 else x for x in (a, b)]
        return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p if p in ("eq", "ne") else p[1:]])
    if k == "bin":
        a = ex(e[2], asg); b = ex(e[3], asg)
        if a is None or b is None: return None
        f = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b,
             "urem": lambda: a % b if b else None, "udiv": lambda: a // b if b else None, "shl": lambda: a << (b & 31), "lshr": lambda: a >> (b & 31)}.get(e[1])
        r = f() if f else None
        return None if r is None else r & M32
    return None

def feasible(facts, asg):
    """may the branch conditions recorded on the path hold under this assignment"""
    for e, (lo, hi, exc) in facts.m.items():
        v = ex(e, asg)
        if v is None: continue
        sv = v - (1 << 32) if v >> 31 and (lo < 0 or hi < 0) else v
        if sv < lo or sv > hi or sv in exc: return False
    return True

def residues(q):
    return list(range(0, min(q, 512))) + [(1 << 32) - i for i in range(1, min(q, 64) + 1)]

def field(e):
    """index of the queue's own field an address refers to: (kind, name) or None"""
    ix = None
    while e[0] == "idx": ix = e[2]; e = e[1]
    if e[0] == "fld" and e[1][0] == "arg" and e[1][1] == 0: return e[2].split(".")[-1], ix
    return None, None

class Proto:
    """rs = (claimed value, slot state, published, counted)"""
    def __init__(s, ctx, f, kind, roles, q):
        s.ctx = ctx; s.f = f; s.kind = kind; s.R = roles; s.q = q; s.seen = {"claims": 0, "publishes": 0, "slot accesses": 0, "returns": 0}
    def keep_exprs(s, rs): return [x for x in rs[:5] if isinstance(x, tuple)] + list(rs[5])
    def ck(s, cond, rule, I, detail, W):
        s.ctx.check(cond, rule, I.where(), "%s: %s" % (s.f.short(), detail), W.trace(), key="%s|%s" % (rule, s.f.short().split("::")[-1] + detail))
    def init(s): return (None, 0, None, 0, None, ())     # claim, slot, published, count, copy source index
    def mask(s, st, ix, val):
        """index expression ix addresses slot `val` for every value"""
        for r in residues(s.q):
            v = ex(ix, {val: r})
            if v is None or v != r % s.q: return False
        return True
    def step(s, st, I, W):
        op = I.op
        claim, slot, pub, cnt, src, obs = st.rs
        if op == "load":
            a = W.ev(st, I.o[0]); n, ix = field(a)
            if n in (s.R["r"], s.R["m"], s.R["w"]):
                s.ck(I.j.get("at") in ACQ, "index observed with acquire order", I, "load of %s" % n, W)
                e = ("ld", I.i, a)
                st.rs = (claim, slot, pub, cnt, src, tuple(x for x in obs if field(x[2])[0] != n) + (e,))
            if n == s.R["arr"] and ix is not None:
                s.seen["slot accesses"] += 1
                if s.kind == "push": s.ck(False, "slot access", I, "a producer reads a slot", W); return None
                # consumer copy: before its claim, from slot of the r it loaded
                s.ck(claim is None, "element copied before the claim", I, "slot read after the slot was given up", W)
                rv = [e for e in subexprs(ix) if e[0] == "ld" and field(e[2])[0] == s.R["r"]]
                ok = bool(rv) and s.mask(st, ix, rv[0])
                s.ck(ok, "slot addressed by the loaded read index", I, "the slot read is that of the read index", W)
                if ok:
                    s.guard_pop(st, I, rv[0], W)
                    st.rs = (claim, 1, pub, cnt, rv[0], obs)
            return None
        if op == "store":
            a = W.ev(st, I.o[1]); n, ix = field(a)
            if n is None: return None
            if n == s.R["arr"]:
                s.seen["slot accesses"] += 1
                if s.kind == "pop": s.ck(False, "slot access", I, "a consumer writes a slot", W); return None
                s.ck(claim is not None and pub is None, "slot written only between claim and publication", I, "slot store", W)
                if claim is not None:
                    s.ck(ix is not None and s.mask(st, ix, claim), "slot addressed by the claimed index", I, "the slot written is the claimed one", W)
                v = W.ev(st, I.o[0])
                s.ck(v[0] == "ld" and v[2][0] == "arg" and v[2][1] == 1, "the caller's element is stored", I, "stored value", W)
                s.ck(slot == 0, "slot written once", I, "slot store", W)
                st.rs = (claim, 1, pub, cnt, src, obs)
            elif n in s.R.values():
                s.ck(False, "indices change only by compare-exchange", I, "plain store to %s" % n, W)
            return None
        if op == "atomicrmw":
            n, ix = field(W.ev(st, I.o[0]))
            if n == s.R["count"]:
                want = "add" if s.kind == "push" else "sub"
                v = W.ev(st, I.o[1]); d = v[1] if v[0] == "const" else None
                if I.j["rmw"] == "sub": d = -d if d is not None else None
                good = d is not None and (d & M32) == ((1 if s.kind == "push" else -1) & M32)
                s.ck(good, "count follows the queue", I, "count changes by one", W)
                st.rs = (claim, slot, pub, cnt + 1, src, obs)
            elif n is not None: s.ck(False, "indices change only by compare-exchange", I, "%s on %s" % (I.j["rmw"], n), W)
            return None
        if op == "cmpxchg":
            n, ix = field(W.ev(st, I.o[0]))
            exp = W.ev(st, I.o[1]); new = W.ev(st, I.o[2])
            t = st.copy(); fl = st
            x = ("xv", ("val", I.i), (1,))
            fl.facts.assume(x, "eq", 0); t.facts.assume(x, "eq", 1)
            inc = all(ex(new, {exp: r}) == (r + 1) & M32 for r in residues(s.q))
            s.ck(inc, "indices advance by one", I, "new value of %s" % n, W)
            s.ck(I.j["at"] in REL, "hand-off has release order", I, "compare-exchange on %s" % n, W)
            if s.kind == "push":
                if n == s.R["w"]:
                    s.seen["claims"] += 1
                    s.ck(claim is None, "one claim per push", I, "second claim", W)
                    s.ck(exp[0] == "ld" and field(exp[2])[0] == n, "claim from an observed index", I, "expected value of the claim", W)
                    s.guard_push(t, I, exp, W)
                    t.rs = (exp, 0, None, cnt, src, obs)
                elif n == s.R["m"]:
                    s.seen["publishes"] += 1
                    s.ck(claim is not None and exp == claim, "published in reservation order", I, "the visible index moves from the claimed value", W)
                    s.ck(slot == 1, "published after the element is stored", I, "publication", W)
                    s.ck(pub is None, "published once", I, "publication", W)
                    t.rs = (claim, slot, 1, cnt, src, obs)
                else: s.ck(False, "indices change only by their owner", I, "push changes %s" % n, W)
            else:
                if n == s.R["r"]:
                    s.seen["claims"] += 1
                    s.ck(claim is None, "one claim per pop", I, "second claim", W)
                    s.ck(slot == 1 and exp == src, "claims the slot that was copied", I, "the claimed index is the one whose slot was copied", W)
                    t.rs = (exp, slot, None, cnt, src, obs)
                else: s.ck(False, "indices change only by their owner", I, "pop changes %s" % n, W)
            return [t, fl]
        return None
    def guard_push(s, st, I, w, W):
        rs = [e for e in W_loads(st) if field(e[2])[0] == s.R["r"]]
        ok = False
        for r in rs:
            if all(not feasible(st.facts, {r: x, w: (x + s.q - 1) & M32}) for x in residues(s.q)): ok = True
        s.ck(ok, "claim only when not full", I, "the conditions on the path exclude a full queue", W)
    def guard_pop(s, st, I, r, W):
        ms = [e for e in W_loads(st) if field(e[2])[0] == s.R["m"]]
        ok = False
        for m in ms:
            obs = st.rs[5]
            after = r in obs and m in obs and obs.index(r) < obs.index(m)
            if after and all(not feasible(st.facts, {r: x, m: x}) for x in residues(s.q)): ok = True
        s.ck(ok, "only visible slots are read", I, "the conditions on the path exclude an invisible slot, with the visible index observed after the read index", W)
    def exit(s, st, I, W):
        claim, slot, pub, cnt, src, obs = st.rs
        v = W.truth(st, W.ev(st, I.o[0]))
        s.seen["returns"] += 1
        s.ck(v is not None, "the result is decided on every path", I, "return value", W)
        if v is None: return
        if v:
            s.ck(claim is not None and (s.kind == "pop" or pub == 1), "true means one element handed over", I, "return true", W)
            s.ck(cnt == 1, "count follows the queue", I, "count updated once", W)
        else:
            s.ck(claim is None and pub is None and cnt == 0, "false means nothing changed", I, "return false", W)

def W_loads(st):
    out = set()
    for e in st.facts.m:
        for x in subexprs(e):
            if x[0] == "ld": out.add(x)
    for e in st.env.values():
        for x in subexprs(e):
            if x[0] == "ld": out.add(x)
    return out

def static_field(f, o):
    from locks import static_ev
    return field(static_ev(f, o))

def run(ctx):
    P = ctx.program()
    done = 0
    for base in sorted(b for b in P.by_base if re.match(r"^cyclone::LockFreeQueue<.*>::push$", b)):
        push = P.one(base); pop = P.one(base[:-4] + "pop")
        q = int(re.search(r",\s*(\d+)u?l?>::push$", base).group(1))
        if q & (q - 1): raise Vanished("queue size %d" % q)
        cx = lambda f: {static_field(f, I.o[0])[0] for I in f.all() if I.op == "cmpxchg"} - {None}
        pc, cc = cx(push), cx(pop)
        lp = {static_field(pop, I.o[0])[0] for I in pop.all() if I.op == "load"}
        rm = {static_field(f, I.o[0])[0] for f in (push, pop) for I in f.all() if I.op == "atomicrmw"} - {None}
        arr = {static_field(f, I.o[0])[0] for f in (pop,) for I in f.all() if I.op == "load" and static_field(f, I.o[0])[1] is not None} | \
              {static_field(push, I.o[1])[0] for I in push.all() if I.op == "store" and static_field(push, I.o[1])[1] is not None}
        arr -= {None}
        m = {x for x in pc if x in lp} - cc
        w = pc - m - cc
        r = cc - pc or cc
        where = "%s:%d" % (push.file, push.line)
        if len(arr) != 1: raise Vanished("element array of %s" % base)
        ok = ctx.check(len(r) == 1 and len(w) == 1 and len(m) == 1 and len(rm) == 1, "index roles", where,
                  "%s: claim, publication and consumption each use a compare-exchange on an index of their own, the count an atomic add (claim on %s, publication on %s, consumption on %s, count %s)" % (push.short(), sorted(w), sorted(m), sorted(r), sorted(rm)))
        if not ok: continue
        roles = {"r": r.pop(), "w": w.pop(), "m": m.pop(), "count": rm.pop(), "arr": arr.pop()}
        for f, kind in ((push, "push"), (pop, "pop")):
            R = Proto(ctx, f, kind, roles, q)
            W = Walker(f, R).run()
            ctx.count("abstract states", W.visited)
            if R.seen["claims"] == 0 or R.seen["slot accesses"] == 0 or R.seen["returns"] < 2: 
                ctx.bad("protocol steps present", f.file, "%s: %s" % (f.short(), R.seen))
            done += 1
    ctx.need(done, 4, "push/pop instantiations")
    # the default queue used for thread messages is one of them
    # initial state: all indices equal
    n = 0
    for f in P.fns.values():
        if re.match(r"^cyclone::LockFreeQueue<.*>::LockFreeQueue$", f.base):
            vals = [I.o[0] for I in f.all() if I.op == "store" and I.o[0][0] == "c"] 
            for I in f.all():
                if I.op == "store" and I.o[0][0] == "c" and I.ty == "void":
                    n += 1; ctx.check(I.o[0][1] == 0, "indices start equal", I.where(), "%s: initial value" % f.short())
