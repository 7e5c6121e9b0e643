"""Class-invariant and contract analysis of the element ring queue (C03).

The vector that holds the elements is a block of elements; resize, indexing,
iterators and range moves are modelled at its interface. Positions of the
queue's content are positions of the logical sequence of elements pushed."""
import re
from num import *
from poly import *
from ring import RB, show, szarg, field
import ir

ES = 8
NAME = "cyclone::RingQueue<long>"
MEMRULES = {"memory access in bounds", "no access after free", "freed exactly once", "memcpy ranges do not overlap", "loop makes progress",
            "class invariant", "scratch memory is freed", "no division by zero", "declared extent", "no write to const"}

def vmodels(A):
    vo = A.off["m_vector"]
    def cell(E, st, p, I):
        if p[0] != "p" or not p[2].is_const() or (p[1], p[2].c) not in st.mem: raise Vanished("vector at an unknown place in %s" % E.fn.base)
        return (p[1], p[2].c)
    def vec(E, st, p, I):
        v = st.mem[cell(E, st, p, I)][0]
        if v[0] != "p" or v[1] not in st.blk: raise Vanished("vector without storage in %s" % E.fn.base)
        return v
    def ctor(E, st, I, a):
        if a[0][0] != "p" or not a[0][2].is_const(): raise Vanished("vector at an unknown place")
        n = [(st, Lin(0))]
        if len(a) > 1 and a[1][0] == "i": n = E.usize(st, a[1])
        out = []
        for s, k in n:
            p = E.malloc(s, k * ES, I, "vec"); s.mem[(a[0][1], a[0][2].c)] = (p, 8); out.append((s, None))
        return out
    def dtor(E, st, I, a):
        return [(s, None) for s in E.free(st, vec(E, st, a[0], I), I)]
    def resize(E, st, I, a):
        """a larger vector moves to new storage; the first elements keep their values"""
        out = []
        k = cell(E, st, a[0], I); v = vec(E, st, a[0], I); old = st.blk[v[1]].size
        for s, n in E.usize(st, a[1]):
            for s1, le in E.order(s, n * ES, old):
                if le:
                    B = s1.blk[v[1]].copy(); B.size = n * ES; s1.blk[v[1]] = B
                    for s2 in E.write(s1, v[1], n * ES, old - n * ES, []): out.append((s2, None))
                    continue
                if not s1.assume(L(MAXOBJ * ES) - n * ES): continue
                p = E.malloc(s1, n * ES, I, "vec")
                for s2, pcs in E.content(s1, v[1], Lin(0), old):
                    for s3 in E.write(s2, p[1], Lin(0), old, pcs):
                        for s4 in E.free(s3, v, I):
                            s4.segs[v[1]] = (); s4.mem[k] = (p, 8); out.append((s4, None))
        return out
    def index(E, st, I, a):
        v = vec(E, st, a[0], I); out = []
        for s, e in E.usize(st, a[1]):
            # a reference to an element that does not exist is already an error
            E.oblige(s, [st.blk[v[1]].size - (e + 1) * ES], "memory access in bounds", I, "element index inside the storage")
            out.append((s, ("p", v[1], v[2] + e * ES)))
        return out
    def begin(E, st, I, a): return [(st, vec(E, st, a[0], I))]
    def end(E, st, I, a):
        v = vec(E, st, a[0], I); return [(st, ("p", v[1], st.blk[v[1]].size))]
    def nop(E, st, I, a): return [(st, a[0] if I.ty == "ptr" and a else None)]
    def swap(E, st, I, a):
        x, y = cell(E, st, a[0], I), cell(E, st, a[1], I); st.mem[x], st.mem[y] = st.mem[y], st.mem[x]; return [(st, None)]
    def move(E, st, I, a):
        x, y = cell(E, st, a[0], I), cell(E, st, a[1], I); out = []
        for s in E.free(st, vec(E, st, a[0], I), I): s.mem[x] = s.mem[y]; s.mem[y] = (E.malloc(s, Lin(0), I, "vec"), 8); out.append((s, a[0]))
        return out
    def size(E, st, I, a):
        v = vec(E, st, a[0], I); out = []
        for s, q, r in E.divmod(st, st.blk[v[1]].size, Lin(ES), I): out.append((s, ("i", q, 64)))
        return out
    def it(E, st, p):
        """iterator: either its value or where it is kept"""
        if p[0] == "p" and p[1] in st.blk and p[2].is_const() and (p[1], p[2].c) in st.mem: return st.mem[(p[1], p[2].c)][0]
        return p
    def plus(sign):
        def f(E, st, I, a):
            p = it(E, st, a[0])
            return [(s, ("p", p[1], p[2] + e * (ES * sign))) for s, e in E.rep(st, a[1], True)]
        return f
    def deref(E, st, I, a): return [(st, it(E, st, a[0]))]
    def ident(E, st, I, a): return [(st, a[0])]
    def copy(E, st, I, a):
        f, l, d = [it(E, st, x) for x in a[:3]]
        if f[1] != l[1]: raise Vanished("range over two containers")
        n = l[2] - f[2]; out = []
        E.oblige(st, [n], "memory access in bounds", I, "the end of a range is not before its beginning")
        if not st.assume(n): return []
        # elements are moved one by one from the front: the target may not start inside the source
        if f[1] == d[1]:
            for s, ne in E.order(st, L(1), n):
                if not ne: continue
                ok = s.ent(d[2] - f[2] - n) or s.ent(f[2] - d[2])
                if not ok: E.oblige(s, [d[2] - f[2] - n], "memcpy ranges do not overlap", I, "elements are overwritten before they are moved")
        return [(s, ("p", d[1], d[2] + n)) for s in E.memcopy(st, d, f, n, I, True)]
    def assign(E, st, I, a):
        return [(s, a[0]) for s in E.memcopy(st, a[0], a[1], Lin(ES), I, True)]
    V = r"^std::vector<long, std::allocator<long>>::"
    N = r"__normal_iterator<long( const)?\*, std::vector<long"
    fun = r"^(bool )?std::function<bool \(unsigned long, long const&\)>::"
    def isnull(want):
        def f(E, st, I, a):
            nf = st.g.get("nofunc", 0)
            return [(st, ("i", Lin(1 if bool(nf) == want else 0), 1))]
        return f
    def callf(E, st, I, a):
        if st.g.get("nofunc"): E.report(st, "contract", I, "a missing function is called"); return []
        n = st.g["n"]; size = st.g["size"]
        if st.g.get("stop"): E.report(st, "contract", I, "the walk goes on although the function returned false"); return []
        want = n if st.g["dir"] == "fwd" else size - 1 - n
        out = []
        for s, e in E.usize(st, a[1]):
            E.oblige(s, [e - want, want - e], "contract", I, "the n-th call of a walk gets the index of the n-th element")
            if not s.assume_eq(e - want): continue
            if not E.access(s, a[2], Lin(ES), I, "element read", False): continue
            for s1, pcs in E.content(s, a[2][1], a[2][2], Lin(ES)):
                A.expect(E, s1, I, pcs, [(Lin(ES), "R0", want * ES)], "the n-th call of a walk gets the n-th element")
                x = s1.copy(); x.g["n"] = n + 1; x.g["stop"] = "stop"; out.append((x, ("i", Lin(0), 1)))
                s1.g["n"] = n + 1; out.append((s1, ("i", Lin(1), 1)))
        return out
    return [(re.compile(r"^std::(__new_)?allocator<long>::|^__gnu_cxx::new_allocator<long>::"), nop), (re.compile(V + r"swap|^(void )?std::swap<long, std::allocator<long>"), swap), (re.compile(V + r"operator=$"), move), (re.compile(V + r"vector"), ctor), (re.compile(V + r"~vector"), dtor), (re.compile(V + r"resize"), resize), (re.compile(V + r"(operator\[\]|at)"), index),
            (re.compile(V + r"(c?begin|data)"), begin), (re.compile(V + r"c?end"), end), (re.compile(V + r"size"), size), (re.compile(N + r".*::operator\+$"), plus(1)), (re.compile(N + r".*::operator-$"), plus(-1)),
            (re.compile(N + r".*::operator\*"), deref), (re.compile(r"^std::__(m|n)iter_base|^(std::)?__miter_base|^std::__niter_wrap|^std::(move|forward)<"), ident), (re.compile(r"^(long\*|.*) ?std::(__copy_move_a\d?|copy|move|__copy_move_backward)<|^std::(__copy_move_a\d?|copy|move)<"), copy),
            (re.compile(r"^(bool )?std::operator==<bool, unsigned long, long const&>"), isnull(True)), (re.compile(r"^(bool )?std::operator!=<bool, unsigned long, long const&>"), isnull(False)), (re.compile(fun + r"operator bool"), isnull(False)),
            (re.compile(fun + r"operator\(\)"), callf)]

class QNum(Num):
    """loop states before and behind the wrap of the content are kept apart"""
    split = None
    def hints(s, st, h):
        for I in s.fn.blocks[h]:
            if I.op != "phi": break
            v = st.env.get(I.i)
            if v is None or v[0] != "i": continue
            for e in s.bounds: yield v[1] - e; yield e - v[1]
        if "n" in st.g:
            for e in s.bounds: yield st.g["n"] - e; yield e - st.g["n"]
    def moremeasures(s, st, h):
        """elements not visited yet; what is left up to the number of elements"""
        if "n" in st.g: yield "ghost", st.g["size"] - st.g["n"]
        for I in s.fn.blocks[h]:
            if I.op != "phi": break
            v = st.env.get(I.i)
            if v is not None and v[0] == "i" and "size" in st.g: yield "phi%d" % I.i, st.g["size"] - v[1]
    def shape(s, st, h):
        ph = []
        for I in s.fn.blocks[h]:
            if I.op != "phi": break
            v = st.env.get(I.i)
            if s.split is None or v is None or v[0] != "i": continue
            ph.append("ge" if st.ent(v[1] - s.split) else "lt" if st.ent(s.split - v[1] - 1) else "?")
        return Num.shape(s, st, h) + tuple(ph)

class RQ(RB):
    CLS = NAME
    def __init__(s, P, sink, pow2=True):
        s.pow2 = pow2; s.P = P; s.sink = sink; s.obl = []; s.stats = {"states": 0, "returns": 0, "initial states": 0}; s.methods = []; s.gaveup = []
        t = P.types.get(NAME)
        if not t: raise Vanished("type %s not found" % NAME)
        s.off = {f[2]: f[0] for f in t}; s.size = t[-1][0] + t[-1][1]
        for f in ("m_fixed", "m_vector", "m_read", "m_write", "m_end"):
            if f not in s.off: raise Vanished("RingQueue::%s not found" % f)
    def fn(s, base, nargs=None): return s.P.one(NAME + "::" + base, nargs)
    def has(s, base): return s.P.has(NAME + "::" + base)
    def eng(s, f):
        E = QNum(f, lambda *a: s.sink(*a), vmodels(s), name="RingQueue::" + f.base.split("::")[-1]); return E
    def mk(s, E, st, fixed, wrapped):
        end, rd, wr, cap = [V(fresh(x)) for x in ("end", "read", "write", "storage")]
        c = st.cons
        c.add(end - 2); c.add(rd); c.add(end - rd - 1); c.add(wr); c.add(end - wr - 1); c.add(-end + MAXOBJ // ES)
        if fixed: c.add(cap - end); c.add(-cap + MAXOBJ // ES)
        else:
            cap = end
            if s.pow2: st.pow2 = frozenset({end})
        E.newblk(st, "this", s.size, "obj"); E.newblk(st, "this.vec", cap * ES, "heap")
        st.mem[("this", s.off["m_fixed"])] = (("i", Lin(1 if fixed else 0), 8), 1)
        st.mem[("this", s.off["m_vector"])] = (("p", "this.vec", Lin(0)), 8)
        for f, v in (("m_end", end), ("m_read", rd), ("m_write", wr)): st.mem[("this", s.off[f])] = (("i", v, 64), 8)
        if wrapped:
            c.add(rd - wr - 1); size = end - rd + wr
            st.segs["this.vec"] = tuple(E.merge(st, [Seg(rd * ES, end * ES, "R0", Lin(0)), Seg(Lin(0), wr * ES, "R0", (end - rd) * ES)]))
        else:
            c.add(wr - rd); size = wr - rd
            st.segs["this.vec"] = tuple(E.merge(st, [Seg(rd * ES, wr * ES, "R0", Lin(0))]))
        return {"end": end, "read": rd, "write": wr, "size": size, "fixed": fixed}
    def inv(s, E, st, T, fixed=None):
        """class invariant at exit; None when it is broken"""
        v = field(st, s.off, "this", "m_vector"); B = st.blk.get(v[1]) if v[0] == "p" else None
        if B is None or not B.live:
            E.report(st, "class invariant", T, "the queue has no storage on return"); E.seen_obl[("class invariant", T.i, "storage")] = False; return None
        fx = field(st, s.off, "this", "m_fixed"); R = {"buf": v, "size": B.size}
        for f in ("m_end", "m_read", "m_write"): R[f[2:]] = field(st, s.off, "this", f)[1]
        need = [R["end"] - 2, R["read"], R["end"] - R["read"] - 1, R["write"], R["end"] - R["write"] - 1, B.size - R["end"] * ES]
        if not E.oblige(st, need, "class invariant", T, "0 <= read, write < end <= number of elements in the storage on return"): return None
        if fx[0] == "i" and st.enteq(fx[1]):
            ok = st.enteq(B.size - R["end"] * ES) and (not s.pow2 or E.ispow2(st, R["end"]))
            k = ("class invariant", T.i, "pow2"); E.seen_obl[k] = E.seen_obl.get(k, True) and ok
            if not ok: E.report(st, "class invariant", T, "a growing queue uses all of its storage" + (", whose size is a power of two" if s.pow2 else ""))
            if not ok: return None
        elif fixed is None and not (fx[0] == "i" and st.enteq(fx[1] - 1)): raise Vanished("the kind of the queue is not decided")
        if fixed is not None and not (fx[0] == "i" and st.enteq(fx[1] - (1 if fixed else 0))): E.report(st, "class invariant", T, "the kind of the queue changes"); return None
        return R
    def leaks(s, E, st, T, owned):
        for b, B in st.blk.items():
            if B.kind != "heap": continue
            ok = not B.live or b in owned
            k = ("scratch memory is freed", T.i, re.sub(r"#.*", "", b)); E.seen_obl[k] = E.seen_obl.get(k, True) and ok
            if not ok: E.report(st, "scratch memory is freed", T, "storage is neither freed nor owned by the queue on return")
    def final(s, E, st, T, R):
        out = []
        for x, le in E.order(st, R["read"], R["write"]):
            if le: out += [(x2, p, R["write"] - R["read"]) for x2, p in E.content(x, R["buf"][1], R["read"] * ES, (R["write"] - R["read"]) * ES)]
            else:
                for x2, p in E.content(x, R["buf"][1], R["read"] * ES, (R["end"] - R["read"]) * ES):
                    for x3, q in E.content(x2, R["buf"][1], Lin(0), R["write"] * ES): out.append((x3, p + q, R["end"] - R["read"] + R["write"]))
        return out
    def after(s, E, st, T, r, want, what, fixed=None):
        """invariant, no leak, content; list of (state, fields)"""
        res = []
        sts = s.norms(E, st, "this")
        for x in sts:
            R = s.inv(E, x, T, fixed)
            if R is None: continue
            s.leaks(E, x, T, {R["buf"][1]})
            for x2, pcs, size in s.final(E, x, T, R):
                s.expect(E, x2, T, pcs, [(n * ES, st_, p * ES) for n, st_, p in want], what)
            res.append((x, R))
        return res
    # iterations of a loop kept apart before it is generalised, and the place at which loop states are kept apart: any attempt that succeeds is a proof
    TRIES = [(u, w) for w in (0, 1, 2) for u in (4, 1, 0, 2)]
    def go(s, base, nargs, cases, post, kinds=(0, 1)):
        """cases(fixed, wrapped) -> [(label, init(E, st, r))]"""
        f = s.fn(base, nargs); allobl = {}; real = s.sink
        if s.gaveup and s.gaveup[-1].find(base) >= 0: return
        for fixed in kinds:
            for w in (False, True):
                for label, init in cases:
                    if base == "RingQueue" and w: continue
                    first = None
                    for how in s.TRIES if f.loops else s.TRIES[:1]:
                        bad = []; s.sink = lambda *a: bad.append(a); gave = len(s.gaveup)
                        try: seen = s.case(base, f, fixed, w, init, post, how)
                        finally: s.sink = real
                        if first is None: first = (bad, seen, s.gaveup[gave:])
                        if not bad and len(s.gaveup) == gave: first = (bad, seen, []); break
                        del s.gaveup[gave:]
                    bad, seen, gave = first
                    for b in bad: s.sink(*b)
                    s.gaveup += gave
                    for k, ok in (seen or {}).items():
                        kk = (f.ins[k[1]].where() if k[1] in f.ins else f.base, k[0], k[2]); allobl[kk] = allobl.get(kk, True) and ok
        for (w, rule, d), ok in allobl.items(): s.obl.append((rule, w, ok, "RingQueue::" + base))
        s.methods.append(base)
    def case(s, base, f, fixed, w, init, post, how):
        E = s.eng(f); E.BUDGET = 40; E.UNROLL = how[0]; st = St(); r = None
        if base == "RingQueue": E.newblk(st, "this", s.size, "obj")
        else: r = s.mk(E, st, fixed, w)
        st.env[("a", 0)] = ("p", "this", Lin(0))
        if r: st.g["size"] = r["size"]; E.split = (r["read"], r["end"] - r["read"], None)[how[1]]; E.bounds = (r["size"], r["end"] - r["read"], r["read"], r["write"], r["end"] - 1, Lin(0))
        c = init(E, st, r)
        if c is False or not st.cons.feasible(): return None
        s.stats["initial states"] += 1
        try:
            try: E.run(st)
            except Vanished as e: s.gaveup.append("%s: %s" % (base, e))
            s.stats["states"] += E.steps
            if not E.rets and not s.gaveup: s.sink("contract", "%s:%d" % (f.file, f.line), "RingQueue::%s never returns" % base, [])
            for x, v, T in E.rets:
                s.stats["returns"] += 1
                vs = [(x, v)] if v is None or v[0] in ("i", "p") else E.toint(x, v)
                for x1, v1 in vs: post(E, x1, v1, T, r, c)
        except Refuted: pass
        finally: disarm()
        return E.seen_obl

def analyse(P, sink):
    """with the size of a growing queue's storage a power of two as part of the invariant, or without"""
    bad = []; other = []
    A = attempt(P, lambda *a: bad.append(a), True)
    if bad:
        try: B = attempt(P, lambda *a: other.append(a), False)
        except Vanished: B = None
        if B is not None and not other: return B
    for b in bad: sink(*b)
    return A

def attempt(P, sink, pow2):
    A = RQ(P, sink, pow2); none = [("", lambda E, st, r: {})]
    same = lambda r: [(r["size"], "R0", Lin(0))]
    # construction
    def ctor(E, st, r): return {"cap": szarg(E, st, 1, "capacity", MAXOBJ // ES - 16)}
    def ctor_post(E, st, v, T, r, c):
        for x, R in A.after(E, st, T, r, [], "a new queue is empty"):
            A.mustbe(E, x, T, R["read"] - R["write"], "a new queue is empty")
            for x1, z in E.order(x, c["cap"], Lin(0)):
                fx = field(x1, A.off, "this", "m_fixed")[1]
                if z: A.mustbe(E, x1, T, fx, "a queue without a capacity grows")
                else:
                    A.mustbe(E, x1, T, fx - 1, "a queue with a capacity is fixed"); A.mustbe(E, x1, T, R["end"] - 1 - c["cap"], "a fixed queue has exactly the requested capacity")
    A.go("RingQueue", 2, [("", ctor)], ctor_post, kinds=(0,))
    # observers
    def const(val, what):
        def post(E, st, v, T, r, c):
            for x, R in A.after(E, st, T, r, same(r), "observers leave the elements alone", r["fixed"]):
                for x1, e in E.rep(x, v, False): val(E, x1, e, T, r, what)
        return post
    eq = lambda f: (lambda E, x, e, T, r, what: A.mustbe(E, x, T, e - f(r), what))
    def isempty(E, x, e, T, r, what):
        for x1, z in E.order(x, r["size"], Lin(0)): A.mustbe(E, x1, T, e - (1 if z else 0), what)
    A.go("size", 1, none, const(eq(lambda r: r["size"]), "size() is the number of elements"))
    A.go("empty", 1, none, const(isempty, "empty() iff there is no element"))
    A.go("capacity", 1, none, const(eq(lambda r: r["end"] - 1), "capacity() is the number of elements that fit"))
    A.go("get_free_size", 1, none, const(eq(lambda r: r["end"] - 1 - r["size"]), "get_free_size() + size() == capacity()"))
    # element access
    def some(E, st, r): return {} if st.assume(r["size"] - 1) else False
    def element(pos, what):
        def post(E, st, v, T, r, c):
            for x, R in A.after(E, st, T, r, same(r), "observers leave the elements alone", r["fixed"]):
                if v[0] != "p" or v[1] != R["buf"][1]: E.report(x, "contract", T, what); continue
                if not E.access(x, v, Lin(ES), T, "element read", False): continue
                for x1, pcs in E.content(x, v[1], v[2], Lin(ES)): A.expect(E, x1, T, pcs, [(Lin(ES), "R0", pos(r, c) * ES)], what)
        return post
    A.go("front", 1, [("", some)], element(lambda r, c: Lin(0), "front() is the oldest element"))
    A.go("back", 1, [("", some)], element(lambda r, c: r["size"] - 1, "back() is the newest element"))
    def idx(E, st, r):
        i = szarg(E, st, 1, "index"); return {"i": i} if st.assume(r["size"] - 1 - i) else False
    A.go("get", 2, [("", idx)], element(lambda r, c: c["i"], "get(i) is the i-th oldest element"))
    # removal
    def cnt(E, st, r): return {"n": szarg(E, st, 1, "counts")}
    def pop_post(E, st, v, T, r, c):
        for x, le in E.order(st, c["n"], r["size"]):
            n = c["n"] if le else r["size"]
            for x1, R in A.after(E, x, T, r, [(r["size"] - n, "R0", n)], "popping n removes exactly the n oldest elements", r["fixed"]): A.mustbe(E, x1, T, R["end"] - r["end"], "the capacity is unchanged")
    A.go("pop", 2, [("", cnt)], pop_post)
    def reset_post(E, st, v, T, r, c):
        for x, R in A.after(E, st, T, r, [], "reset() removes every element", r["fixed"]): A.mustbe(E, x, T, R["end"] - r["end"], "the capacity is unchanged")
    A.go("reset", 1, none, reset_post)
    # push
    def other(E, st, r):
        E.newblk(st, "value", ES, "data", const=True); st.segs["value"] = (Seg(Lin(0), Lin(ES), "S", Lin(0)),); st.env[("a", 1)] = ("p", "value", Lin(0)); return {"s": ("S", Lin(0))}
    def own(E, st, r):
        k = V(fresh("own")); st.cons.add(k)
        if not st.assume(r["size"] - 1 - k): return False
        p = r["read"] + k
        wrap = st.copy()
        st.g["own"] = k
        # the element may be stored behind the wrap; the first half is the ordinary case
        if not st.assume(r["end"] - 1 - p): return False
        st.env[("a", 1)] = ("p", "this.vec", p * ES); return {"s": ("R0", k)}
    def own2(E, st, r):
        k = V(fresh("own")); st.cons.add(k)
        if not st.assume(r["size"] - 1 - k) or not st.assume(r["read"] + k - r["end"]): return False
        st.env[("a", 1)] = ("p", "this.vec", (r["read"] + k - r["end"]) * ES); return {"s": ("R0", k)}
    def push_post(E, st, v, T, r, c):
        n, p = c["s"]
        for x, full in E.order(st, r["end"] - 1, r["size"]):
            drop = 1 if full and r["fixed"] else 0
            w = "a full fixed queue drops exactly the oldest element" if drop else "push() adds one element behind the others and keeps all of them"
            for x1, R in A.after(E, x, T, r, [(r["size"] - drop, "R0", Lin(drop)), (Lin(1), n, p)], w, r["fixed"]):
                if r["fixed"]: A.mustbe(E, x1, T, R["end"] - r["end"], "a fixed queue keeps its capacity")
                else: E.oblige(x1, [R["end"] - r["end"]], "contract", T, "a growing queue never shrinks")
    A.go("push", 2, [("", other), ("own element", own), ("own element", own2)], push_post)
    # walks
    for base, d in (("walk", "fwd"), ("walk_reserve", "bwd")):
        def mk(nofunc, d=d):
            def init(E, st, r):
                E.newblk(st, "func", 32, "data"); st.env[("a", 1)] = ("p", "func", Lin(0)); st.g["n"] = Lin(0); st.g["dir"] = d
                if nofunc: st.g["nofunc"] = "none"
                return {"none": nofunc}
            return init
        def post(E, st, v, T, r, c):
            for x, R in A.after(E, st, T, r, same(r), "a walk leaves the elements alone", r["fixed"]):
                if not c["none"] and not x.g.get("stop"): A.mustbe(E, x, T, x.g["n"] - r["size"], "a walk visits every element unless it is told to stop")
                else: E.seen_obl.setdefault(("contract", T.i, "a walk stops when it is told to"), True)
        A.go(base, 2, [("", mk(False)), ("null", mk(True))], post)
    if A.gaveup: raise Vanished("; ".join(A.gaveup))
    return A

if __name__ == "__main__":
    import build, time
    js, u = build.view("core"); P = ir.Prog(js, u); t = time.time()
    def sink(rule, where, detail, trace): print("BAD", rule, where, detail)
    A = analyse(P, sink)
    print(len(A.obl), sum(1 for o in A.obl if o[2]), A.stats, time.time() - t)
