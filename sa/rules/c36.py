"""Abstract interpretation of the checksum in a polyhedral domain with two accumulators as ghosts: which bytes each half has added since it was
last reduced is a linear quantity m. From an arbitrary valid running checksum and an arbitrary length, every byte read must be inside the range and be the next one,
every addition to the first half must add exactly that byte and be followed by one addition of the first half to the second; before each addition the
number of bytes since the last reduction must be small enough that 65520 + 65520 m + 255 m (m+1) / 2 fits into 32 bits; a reduction is a remainder by 65521 or a subtraction of
65521 from something that is at least that; on return every byte has been consumed, both halves are below 65521 and the result is their combination. Loops need a decreasing measure."""
from num import *
from poly import *
import poly
import ir
LEVEL = "proof"
BASE = 65521
def lemma(m): return (BASE - 1) * (m + 1) + 255 * m * (m + 1) // 2
MMAX = max(m for m in range(1, 20000) if lemma(m) < 1 << 32)

class ANum(Num):
    BUDGET = 60
    offs = None
    def load(s, st, p, ty, I, nbytes):
        if p[0] == "p" and p[1] == "buf":
            if not s.access(st, p, Lin(nbytes), I, "load", False): return []
            if nbytes != 1: raise Vanished("the data is not read byte by byte")
            v = V(fresh("byte")); st.cons.add(v); st.cons.add(-v + 255); s.offs[v.t[0][0]] = p[2]
            return [(st, ("i", v, 8))]
        return Num.load(s, st, p, ty, I, nbytes)
    def same(s, st, x, y): return (x - y).is_const() and (x - y).c == 0 or st.enteq(x - y)
    def arith(s, st, I):
        a, b = s.ev(st, I.o[0]), s.ev(st, I.o[1]); op = I.op; w = s.tyw(I.ty)
        if a[0] != "i" or b[0] != "i" or w not in (32, 64): return Num.arith(s, st, I)
        x, y = a[1], b[1]; g = st.g
        if y.is_const() and s.same(st, x, s.start):
            if (op, y.c) in (("lshr", 16), ("udiv", 65536)): st.env[I.i] = ("i", g["B0"], w); return [st]
            if (op, y.c) in (("and", 65535), ("urem", 65536)): st.env[I.i] = ("i", g["A0"], w); return [st]
        if op == "add":
            for u, v in ((x, y), (y, x)):
                o = s.offs.get(v.t[0][0]) if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 else None
                if o is not None and s.same(st, u, g["SA"]):
                    s.oblige(st, [o - g["c"], g["c"] - o], "every byte is added once and in order", I, "the byte added to the first half is the next one")
                    s.oblige(st, [-g["ph"]], "the second half follows the first", I, "the second half is updated after each byte")
                    if not st.assume_eq(o - g["c"]) or not st.assume_eq(g["ph"]): return []
                    g["c"] = g["c"] + 1; g["mA"] = g["mA"] + 1; g["ph"] = Lin(1)
                    s.oblige(st, [Lin(((1 << 32) - BASE) // 255) - g["mA"]], "sums fit into 32 bits", I, "first half")
                    n = V(fresh("A")); st.cons.add(n); st.cons.add(-n + (BASE - 1) + 255 * g["mA"]); s.forget(st, u); s.forget(st, v)
                    g["SA"] = n; st.env[I.i] = ("i", n, w); return [st]
                if o is not None:
                    s.oblige(st, [Lin(-1)], "every byte is added once and in order", I, "a byte is added to the first half as last reduced"); return []
                if s.same(st, u, g["SB"]) and s.same(st, v, g["SA"]) and st.ent(g["ph"] - 1):
                    g["ph"] = Lin(0); g["mB"] = g["mB"] + 1
                    hb = st.cons.rng(g["SB"])[1]; ha = st.cons.rng(g["SA"])[1]; small = hb is not None and ha is not None and hb + ha < 1 << 32
                    if small: s.seen_obl.setdefault(("sums fit into 32 bits", I.i, "second half"), True)
                    else: s.oblige(st, [Lin(MMAX) - g["mB"], g["mB"] - g["mA"]], "sums fit into 32 bits", I, "second half")
                    n = V(fresh("B")); st.cons.add(n); st.cons.add(-n + (int(hb + ha) if small else (1 << 32) - 1))
                    s.forget(st, u); g["SB"] = n; st.env[I.i] = ("i", n, w); return [st]
        if y.is_const() and (op == "urem" and y.c == BASE or op == "sub" and y.c == BASE or op == "add" and y.c == -BASE):
            for k, m in (("SA", "mA"), ("SB", "mB")):
                if not s.same(st, x, g[k]): continue
                if op == "urem": r = V(fresh("rem")); st.cons.add(r); st.cons.add(-r + BASE - 1)
                else:
                    r = x - BASE
                    s.oblige(st, [r], "a reduction keeps the residue", I, "65521 is subtracted only from a sum at least that large")
                    if not st.assume(r): return []
                g[k] = r
                if st.ent(-r + BASE - 1): g[m] = Lin(0)
                st.env[I.i] = ("i", r, w); return [st]
        return Num.arith(s, st, I)
    def forget(s, st, e):       # a sum that has been replaced keeps no bounds
        d = {v for v in e.vars() if poly.NAMES.get(v, "").split(".")[0] in ("A", "B", "byte")}
        if not d: return
        c = poly.Cons()
        for x in st.cons.s:
            if not set(x.vars()) & d: c.add(x)
        st.cons = c
    def loophead(s, h, pb, st):
        live = {v for e in s.observables(st, h).values() for v in e.vars()} | {v for e in s.basecons for v in e.vars()}
        c = poly.Cons()
        for e in st.cons.s:
            if len(e.vars()) > 1 or set(e.vars()) & live: c.add(e)      # bounds of values that are gone
        st.cons = c
        return Num.loophead(s, h, pb, st)
    def hints(s, st, h):
        g = st.g; ks = s.cmpconsts
        for k in ("SA", "SB"): yield Lin(BASE - 1) - g[k]; yield g[k]
        yield Lin(BASE - 1) + 255 * g["mA"] - g["SA"]
        for a, b in (("mA", "mB"), ("c", "mA")): yield g[a] - g[b]; yield g[b] - g[a]
        for x in sorted(st.env, key=str):
            v = st.env[x]
            if v is None or (not isinstance(x, tuple) and x not in s.live[h]): continue
            if v[0] == "i" and not v[1].is_const():
                yield v[1] - 1; yield v[1]
                for k in ks: yield Lin(k) - v[1]
            if v[0] == "p" and v[1] == "buf": yield v[2] - g["c"]; yield g["c"] - v[2]
    def moremeasures(s, st, h): yield "bytes left", s.len - st.g["c"]

def run(ctx):
    P = ctx.program(); f = P.one("cyclone::adler32")
    if len(f.args) != 3: raise Vanished("parameters of adler32")
    best = None
    for how in (0, 1, 2):
        bad = []; st = St(); E = ANum(f, lambda *a: bad.append(a), [], name="adler32"); E.UNROLL = how; E.offs = {}
        E.cmpconsts = sorted({o[1] for I in f.all() if I.op == "icmp" for o in I.o if o[0] == "c" and 1 < o[1] < 1 << 16})
        n, A, B = V(fresh("len")), V(fresh("low")), V(fresh("high")); c = st.cons
        c.add(n); c.add(-n + (1 << 47))
        for x in (A, B): c.add(x); c.add(-x + BASE - 1)
        E.newblk(st, "buf", n, "data", const=True); E.start = A + 65536 * B; E.len = n
        st.env[("a", 0)] = ("i", E.start, 32); st.env[("a", 1)] = ("p", "buf", Lin(0)); st.env[("a", 2)] = ("i", n, 64)
        st.g.update({"A0": A, "B0": B, "SA": A, "SB": B, "mA": Lin(0), "mB": Lin(0), "c": Lin(0), "ph": Lin(0)})
        err = None
        try:
            E.run(st)
            for x, v, T in E.rets:
                E.oblige(x, [x.g["c"] - n, n - x.g["c"]], "every byte is added once and in order", T, "all bytes have been added on return")
                E.oblige(x, [-x.g["ph"]], "the second half follows the first", T, "both halves are complete on return")
                E.oblige(x, [Lin(BASE - 1) - x.g["SA"], Lin(BASE - 1) - x.g["SB"]], "both halves are below 65521", T, "result")
                for x1, e in E.rep(x, v, False):
                    d = e - x1.g["SA"] - 65536 * x1.g["SB"]
                    E.oblige(x1, [d, -d], "the result combines both halves", T, "result")
        except Refuted: pass
        except Vanished as e: err = e
        finally: disarm()
        if best is None or (not bad and err is None): best = (bad, E, err)
        if not bad and err is None: break
    bad, E, err = best
    for rule, where, detail, trace in bad: ctx.bad(rule, where, detail, trace, key="%s|%s" % (rule, detail))
    if err is not None and not bad: raise err
    ok = 0
    for (rule, i, d), good in E.seen_obl.items():
        if good: ctx.ok(rule, f.ins[i].where() if i in f.ins else f.base, d); ok += 1
    ctx.cover["abstract states"] = E.steps; ctx.cover["most bytes between reductions that fit"] = MMAX
    ctx.need(ok if not bad else 99, 30, "obligations"); ctx.need(len(E.rets) if not bad else 9, 3, "returns")
    ctx.assumption("the running checksum passed in is a checksum (both halves below 65521); lengths below 2^47")
