"""Disjunctive polyhedral abstract interpreter over the normalised IR.

State: value environment (linear expressions over symbolic integers), typed
memory cells, byte/element blocks with *content segments* (which logical
stream positions a block currently holds), and a conjunction of linear
constraints.  Machine arithmetic is exact: a value is a linear expression
modulo 2^w and is resolved to its unsigned/signed representative by a case
split when it is used as such.  Loops: a bounded number of states is kept
apart per loop entry, after that states are canonicalised (projection) and
widened until a fixpoint; a widened loop must have a decreasing measure."""
import time, re
import poly, time
from poly import Lin, L, V, fresh, Cons, norm, NAMES, equalities, affine_join
from ir import Vanished

W64 = 1 << 64
class Refuted(Exception):
    """a violation was found a while ago: the rest of this function is not explored"""
def arm(n):
    import signal
    def h(*a): raise Refuted()
    signal.signal(signal.SIGALRM, h); signal.alarm(n)
def disarm():
    import signal
    signal.alarm(0)
MAXOBJ = 1 << 47          # user address space: no object is larger

DBG = __import__('os').environ.get('NUMDBG')
class Seg:
    """block content [lo,hi) equals positions pos.. of a stream"""
    __slots__ = ("lo", "hi", "stream", "pos")
    def __init__(s, lo, hi, stream, pos): s.lo = lo; s.hi = hi; s.stream = stream; s.pos = pos
    def __repr__(s): return "[%r,%r)=%s@%r" % (s.lo, s.hi, s.stream, s.pos)
    def key(s): return (s.lo, s.hi, s.stream, s.pos)
    def subst(s, f): return Seg(f(s.lo), f(s.hi), s.stream, f(s.pos))

def tmap(v, f):
    if isinstance(v, Lin): return f(v)
    if isinstance(v, tuple): return tuple(tmap(x, f) for x in v)
    return v
def lins(v):
    if isinstance(v, Lin): yield v
    elif isinstance(v, tuple):
        for x in v: yield from lins(x)
def segsort(sg): return sorted(sg, key=lambda s: (str(s.stream), repr(s.pos), repr(s.lo)))

class Blk:
    __slots__ = ("name", "size", "kind", "live", "unit", "const")
    def __init__(s, name, size, kind, unit=1, const=False): s.name = name; s.size = size; s.kind = kind; s.live = True; s.unit = unit; s.const = const
    def copy(s):
        b = Blk(s.name, s.size, s.kind, s.unit, s.const); b.live = s.live; return b
    def key(s): return (s.name, s.size, s.kind, s.live)

class St:
    __slots__ = ("env", "mem", "cons", "blk", "segs", "g", "loops", "tags", "pow2", "path", "nz")
    def __init__(s):
        s.env = {}; s.mem = {}; s.cons = Cons(); s.blk = {}; s.segs = {}; s.g = {}; s.loops = {}; s.tags = {}; s.pow2 = set(); s.path = (); s.nz = ()
    def copy(s):
        n = St.__new__(St)
        n.env = dict(s.env); n.mem = dict(s.mem); n.cons = s.cons.copy(); n.blk = dict(s.blk); n.segs = dict(s.segs); n.g = dict(s.g)
        n.loops = dict(s.loops); n.tags = s.tags; n.pow2 = s.pow2; n.path = s.path; n.nz = s.nz
        return n
    def assume(s, e):
        """e >= 0; False when infeasible"""
        if not e.t: return e.c >= 0
        l, h = s.cons.rng(e)
        if h is not None and h < 0: return False
        if l is not None and l >= 0: return True
        s.cons.add(e)
        return s.cons.feasible_with(e)
    def assume_eq(s, e):
        return s.assume(e) and s.assume(-e)
    def ent(s, e): 
        if s.cons.entails(e): return True
        if s.pow2 and s.saturate(): return s.cons.entails(e)
        return False
    def saturate(s):
        """two powers of two a > b satisfy a >= 2b"""
        ch = False
        p = list(s.pow2)
        for a in p:
            for b in p:
                if a is not b and s.cons.entails(a - b - 1) and not s.cons.entails(a - 2 * b):
                    s.cons.add(a - 2 * b); ch = True
        return ch
    def enteq(s, e): return s.ent(e) and s.ent(-e)
    def mktag(s, v, t):
        s.tags = dict(s.tags); s.tags[v] = t

def _fw(self, e):
    comp = self.component(e.vars())
    from poly import _feasible
    return _feasible(frozenset(comp))
Cons.feasible_with = _fw

class Fail(Exception): pass

class Num:
    UNROLL = 4
    MAXSTEP = 6000
    def __init__(self, fn, sink, models=None, name=None):
        self.fn = fn; self.sink = sink; self.models = models or []; self.name = name or fn.short()
        self.rets = []; self.steps = 0; self.wide = {}; self.obl = 0; self.seen_obl = {}
        self.loopof = {b: [h for h, body in fn.loops.items() if b in body] for b in fn.reach}
        self.deadend = 0
        self.live = self._live()
        self.rank_fail = {}; self.tbad = None
    # ---------------- obligations
    def oblige(self, st, cond, rule, I, detail):
        """cond: list of Lin that must be >= 0"""
        good = all(st.ent(e) for e in cond)
        k = (rule, I.i if I is not None else -1, detail)
        self.seen_obl[k] = self.seen_obl.get(k, True) and good
        if not good:
            self.report(st, rule, I, detail)
        return good
    def report(self, st, rule, I, detail):
        if self.tbad is None:
            self.tbad = time.time()
            arm(10)
        self.sink(rule, I.where() if I is not None else "%s:%d" % (self.fn.file, self.fn.line), "%s: %s" % (self.name, detail), self.trace(st, I))
    def trace(self, st, I=None):
        out = []
        p = st.path; bl = []
        while p: bl.append(p[1]); p = p[0]
        for b in reversed(bl):
            for x in self.fn.blocks[b]:
                if x.d:
                    l = "%s:%d" % (x.d[0][1], x.d[0][0])
                    if not out or out[-1] != l: out.append(l)
        return out[-60:]
    # ---------------- liveness of SSA values (for canonicalisation)
    def _live(self):
        fn = self.fn
        use = {b: set() for b in fn.reach}; 
        def uses(o, acc):
            if not isinstance(o, list) or not o: return
            if o[0] == "v": acc.add(o[1])
            elif o[0] in ("e", "ge", "s"):
                for x in o[1:]: uses(x, acc)
        dfn = {b: set(I.i for I in fn.blocks[b]) for b in fn.reach}
        phiuse = {}
        for b in fn.reach:
            for I in fn.blocks[b]:
                if I.op == "phi":
                    for v, p in I.j["in"]:
                        if v[0] == "v": phiuse.setdefault(p, set()).add(v[1])
                    continue
                for o in I.o: uses(o, use[b])
                for s in I.j.get("steps") or []:
                    if s[0] == "x": uses(s[1], use[b])
                if "fp" in I.j: uses(I.j["fp"], use[b])
        live = {b: set() for b in fn.reach}
        ch = True
        while ch:
            ch = False
            for b in fn.reach:
                out = set(phiuse.get(b, ()))
                for s in fn.succ[b]:
                    out |= live[s]
                n = use[b] - dfn[b] | (out - dfn[b])
                if n != live[b]: live[b] = n; ch = True
        for b in fn.reach:
            live[b] = live[b] | {I.i for I in fn.blocks[b] if I.op == "phi"}
        return live
    # ---------------- values
    def rep(self, st, v, signed):
        """resolve integer value to its unsigned/signed representative: list of (state, Lin)"""
        e, w = v[1], v[2]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        l, h = st.cons.rng(e)
        m = 1 << w
        if (l is not None and l >= lo and h is not None and h <= hi) or (st.ent(e - lo) and st.ent(-e + hi)): return [(st, e)]
        if l is None or h is None:
            ks = range(-3, 4)
        else:
            ks = range((l - lo) // m, (h - lo) // m + 1)
            if len(ks) > 8:
                # many wraps: lose the relation, keep the range
                r = V(fresh("wrap"))
                s2 = st; s2.cons.add(r - lo); s2.cons.add(-r + hi)
                return [(s2, r)]
        out = []
        for k in ks:
            s2 = st.copy(); x = e - k * m
            if s2.assume(x - lo) and s2.assume(-x + hi): out.append((s2, x))
        return out
    def tyw(self, ty):
        m = re.match(r"i(\d+)$", ty)
        return int(m.group(1)) if m else None
    def unknown(self, st, ty, name="u"):
        w = self.tyw(ty)
        if w == 1:
            v = V(fresh(name)); st.cons.add(v); st.cons.add(-v + 1)
            return ("i", v, 1)
        if w:
            v = V(fresh(name)); st.cons.add(v); st.cons.add(-v + ((1 << w) - 1))
            return ("i", v, w)
        if ty == "ptr": return ("p", "?%d" % fresh("ptr"), Lin(0))
        return ("x", ty)
    def const(self, o):
        return ("i", Lin(o[1]), o[2])
    def ev(self, st, o):
        k = o[0]
        if k == "c": return ("i", Lin(o[1]), o[2])
        if k == "v":
            if o[1] in st.env: return st.env[o[1]]
            raise Vanished("value %d of %s has no abstract value" % (o[1], self.fn.base))
        if k == "a": return st.env[("a", o[1])]
        if k == "n": return ("p", None, Lin(0))
        if k == "g": return ("p", "@" + o[1], Lin(0))
        if k == "ge":
            b = self.ev(st, o[1])
            if b[0] == "p": return ("p", b[1], b[2] + o[2])
            return b
        if k == "z":
            return ("p", None, Lin(0)) if o[1] == "ptr" else ("x", "zero")
        return ("x", str(o))
    def cond(self, st, c):
        """boolean value -> list of (state, bool)"""
        if c[0] == "i":
            r = []
            s2 = st.copy()
            e = c[1]
            if not e.t: return [(st, bool(e.c & 1))]
            if s2.assume_eq(e - 1): r.append((s2, True))
            s3 = st.copy()
            if s3.assume_eq(e): r.append((s3, False))
            return r
        if c[0] == "cmp": return self.cmp(st, c[1], c[2], c[3])
        if c[0] == "not": return [(s, not b) for s, b in self.cond(st, c[1])]
        if c[0] == "and":
            r = []
            for s, b in self.cond(st, c[1]):
                if not b: r.append((s, False))
                else: r.extend(self.cond(s, c[2]))
            return r
        if c[0] == "or":
            r = []
            for s, b in self.cond(st, c[1]):
                if b: r.append((s, True))
                else: r.extend(self.cond(s, c[2]))
            return r
        if c[0] == "xor":
            r = []
            for s, b in self.cond(st, c[1]):
                for s2, b2 in self.cond(s, c[2]): r.append((s2, b != b2))
            return r
        return [(st.copy(), True), (st.copy(), False)]
    def cmp(self, st, p, a, b):
        if a[0] == "p" or b[0] == "p":
            if a[0] == "p" and b[0] == "p":
                if a[1] == b[1]:
                    return self.cmplin(st, {"eq": "eq", "ne": "ne", "ult": "lt", "ule": "le", "ugt": "gt", "uge": "ge"}.get(p, "eq"), a[2], b[2])
                ua = isinstance(a[1], str) and a[1].startswith("?"); ub = isinstance(b[1], str) and b[1].startswith("?")
                if not ua and not ub and p in ("eq", "ne"): return [(st, p == "ne")]
            return [(st.copy(), True), (st.copy(), False)]
        if a[0] in ("cmp", "not", "and", "or", "xor") or b[0] in ("cmp", "not", "and", "or", "xor"):
            out = []
            for s, x in self.toint(st, a):
                for s2, y in self.toint(s, b): out.extend(self.cmp(s2, p, x, y))
            return out
        if a[0] != "i" or b[0] != "i": return [(st.copy(), True), (st.copy(), False)]
        out = []
        w = a[2]
        if p in ("eq", "ne"):
            d = a[1] - b[1]
            l, h = st.cons.rng(d)
            if l is not None and h is not None and l > -(1 << w) and h < (1 << w): return self.cmplin(st, p, a[1], b[1])
            if st.ent(d + ((1 << w) - 1)) and st.ent(-d + ((1 << w) - 1)): return self.cmplin(st, p, a[1], b[1])
            sg = False
            # signed if one side is a negative constant
            for s, x in self.rep(st, a, sg):
                for s2, y in self.rep(s, b, sg): out.extend(self.cmplin(s2, p, x, y))
            return out
        sg = p[0] == "s"
        for s, x in self.rep(st, a, sg):
            for s2, y in self.rep(s, b, sg):
                out.extend(self.cmplin(s2, p[1:], x, y))
        return out
    def cmplin(self, st, p, x, y):
        """list of (state, truth) for x p y over the integers"""
        d = x - y
        def go(t, f):
            out = []
            for conds, val in ((t, True), (f, False)):
                for c in conds:
                    s = st.copy()
                    if all(s.assume(e) for e in c): out.append((s, val))
            return out
        if p == "lt": return go([[-d - 1]], [[d]])
        if p == "le": return go([[-d]], [[d - 1]])
        if p == "gt": return go([[d - 1]], [[-d]])
        if p == "ge": return go([[d]], [[-d - 1]])
        if p == "eq": return go([[d, -d]], [[d - 1], [-d - 1]])
        if p == "ne": return go([[d - 1], [-d - 1]], [[d, -d]])
        raise Vanished("comparison " + p)
    def toint(self, st, v, w=1):
        """boolean or integer -> list of (state, int value)"""
        if v[0] == "i": return [(st, v)]
        if v[0] == "p": return [(st, v)]
        if v[0] == "x": return [(st, self.unknown(st, "i%d" % w))]
        return [(s, ("i", Lin(1 if b else 0), 1)) for s, b in self.cond(st, v)]
    def divmod(self, st, x, m, I, signed=False):
        """list of (state, q, r) of x = q*m + r, 0<=r<m for x>=0 (Lin), m>0 (Lin)"""
        if m.is_const():
            if m.c == 0: self.report(st, "division by zero", I, "divisor is zero"); return []
            if x.is_const(): return [(st, Lin(x.c // m.c), Lin(x.c % m.c))]
            if m.c == 1: return [(st, x, Lin(0))]
            l, h = st.cons.rng(x)
            if st.ent(-x + m.c - 1) and st.ent(x): return [(st, Lin(0), x)]
            key = ("dm", x, m.c)
            if key in st.g: q = st.g[key]
            else:
                q = V(fresh("q")); st.g[key] = q
                r = x - q * m.c
                st.cons.add(r); st.cons.add(-r + m.c - 1); st.cons.add(q)
            return [(st, q, x - q * m.c)]
        out = []
        # symbolic modulus: quotient 0, 1, 2 or unknown
        s0 = st
        if not s0.ent(m - 1): self.oblige(s0, [m - 1], "no division by zero", I, "divisor may be zero")
        rest = st.copy()
        if not rest.assume(m - 1): return []
        for k in range(3):
            s = rest.copy()
            r = x - m * k
            if s.assume(r) and s.assume(m - r - 1): out.append((s, Lin(k), r))
            if not rest.assume(x - m * (k + 1)): break
        else:
            q = V(fresh("q")); r = V(fresh("r"))
            if rest.assume(q - 3) and rest.assume(r) and rest.assume(m - r - 1) and rest.assume(x - r - 3 * m): out.append((rest, q, r))
        return out
    # ---------------- memory
    def newblk(self, st, name, size, kind, unit=1, const=False):
        st.blk[name] = Blk(name, L(size), kind, unit, const); st.segs[name] = ()
        return ("p", name, Lin(0))
    def access(self, st, p, n, I, what, write):
        """obligation: [p, p+n) inside a live block. n Lin >= 0"""
        if p[0] != "p": raise Vanished("address is not a pointer in %s" % self.fn.base)
        b = p[1]
        if b is None:
            return self.oblige(st, [-n], "memory access in bounds", I, "%s through a null pointer" % what)
        if b.startswith("?") or b.startswith("@"): return True
        B = st.blk.get(b)
        if B is None: raise Vanished("unknown block %s" % b)
        if not B.live:
            return self.oblige(st, [-n], "no access after free", I, "%s of %s after it was freed" % (what, B.name))
        off = p[2]
        if st.ent(-n): return True   # empty
        ok = self.oblige(st, [off, B.size * B.unit - off - n], "memory access in bounds", I, "%s of %s inside its %s" % (what, B.name, "extent"))
        if write and B.const: self.report(st, "no write to const", I, "write to %s" % B.name)
        return ok
    def load(self, st, p, ty, I, nbytes):
        if p[0] != "p": return [(st, self.unknown(st, ty))]
        b = p[1]
        if b is not None and b in st.blk:
            self.access(st, p, Lin(nbytes), I, "load", False)
        elif b is None:
            self.report(st, "memory access in bounds", I, "load through a null pointer"); return []
        out = []
        if b is not None and (b in st.blk) and p[2].is_const():
            k = (b, p[2].c)
            if k in st.mem:
                v, sz = st.mem[k]
                if sz == nbytes: return [(st, v)]
                if v[0] == "i" and nbytes == 1 and sz == 1: return [(st, v)]
            hook = self.onload(st, p, ty, I)
            if hook is not None: return hook
            v = self.unknown(st, ty, "%s+%d" % (b, p[2].c))
            if not st.segs.get(b):
                st.mem[k] = (v, nbytes)
                return [(st, v)]
        if b in st.blk and st.segs.get(b):
            # content load of one unit
            res = []
            for s, pieces in self.content(st, b, p[2], L(nbytes)):
                v = self.unknown(s, ty, "byte")
                if len(pieces) == 1 and pieces[0][1] is not None and v[0] == "i":
                    s.mktag(v[1].t[0][0], (pieces[0][1], pieces[0][2], nbytes))
                res.append((s, v))
            return res
        if b in st.blk:
            # symbolic offset into a cell block: try to match a cell
            pass
        hook = self.onload(st, p, ty, I)
        if hook is not None: return hook
        return [(st, self.unknown(st, ty))]
    def onload(self, st, p, ty, I): return None
    def store(self, st, p, v, I, nbytes):
        if p[0] != "p": return [st]
        b = p[1]
        if b is None:
            self.report(st, "memory access in bounds", I, "store through a null pointer"); return []
        if b not in st.blk: return [st]
        self.access(st, p, Lin(nbytes), I, "store", True)
        if not st.blk[b].live: return []
        B = st.blk[b]
        if p[2].is_const() and B.kind in ("obj", "cells"):
            o = p[2].c
            for k in [k for k in st.mem if k[0] == b and k[1] < o + nbytes and k[1] + st.mem[k][1] > o]: del st.mem[k]
            st.mem[(b, o)] = (v, nbytes)
            if not st.segs.get(b): return [st]
            return self.write(st, b, p[2], Lin(nbytes), [])
        if B.kind in ("obj", "cells"):
            for k in [k for k in st.mem if k[0] == b]: del st.mem[k]
            return [st]
        if p[2].is_const():
            o = p[2].c
            for k in [k for k in st.mem if k[0] == b and k[1] < o + nbytes and k[1] + st.mem[k][1] > o]: del st.mem[k]
            st.mem[(b, o)] = (v, nbytes)
        else:
            for k in [k for k in st.mem if k[0] == b]: del st.mem[k]
        piece = []
        if v[0] == "i" and len(v[1].t) == 1 and v[1].c == 0:
            t = st.tags.get(v[1].t[0][0])
            if t and t[2] == nbytes: piece = [(Lin(nbytes), t[0], t[1])]
        if not piece: piece = self.storepiece(st, v, nbytes)
        return self.write(st, b, p[2], Lin(nbytes), piece)
    def storepiece(self, st, v, nbytes): return []
    # ---- content segments
    def order(self, st, a, b):
        """split: list of (state, a<=b)"""
        if st.ent(b - a): return [(st, True)]
        if st.ent(a - b - 1): return [(st, False)]
        out = []
        s = st.copy()
        if s.assume(b - a): out.append((s, True))
        s = st.copy()
        if s.assume(a - b - 1): out.append((s, False))
        return out
    def content(self, st, b, off, n):
        """content of block b at [off,off+n): list of (state, [(len, stream|None, pos)])"""
        if st.ent(-n): return [(st, [])]
        segs = st.segs.get(b, ())
        states = [(st, off, [])]       # cursor
        end = off + n
        out = []
        # iterate over segments (unordered): find the one containing the cursor
        def step(s, cur, pieces, depth):
            if s.ent(cur - end): out.append((s, pieces)); return
            if depth > 8: out.append((s, pieces + [(end - cur, None, None)])); return
            rest = [s]
            for sg in s.segs.get(b, ()):
                nr = []
                for s0 in rest:
                    for s1, le in self.order(s0, sg.lo, cur):
                        if not le: nr.append(s1); continue
                        for s2, ge in self.order(s1, sg.hi, cur):     # hi <= cur ?
                            if ge: nr.append(s2); continue
                            # cursor inside sg
                            for s3, fits in self.order(s2, end, sg.hi):
                                top = end if fits else sg.hi
                                step(s3, top, pieces + [(top - cur, sg.stream, sg.pos + (cur - sg.lo))], depth + 1)
                rest = nr
            for s0 in rest:
                # cursor in a hole: up to the nearest following segment (imprecise: all unknown)
                nxt = None
                cands = [sg.lo for sg in s0.segs.get(b, ()) if s0.ent(sg.lo - cur - 1)]
                done = False
                for c in cands:
                    if all(s0.ent(d - c) for d in cands):
                        for s1, before in self.order(s0, c, end):
                            if before: step(s1, c, pieces + [(c - cur, None, None)], depth + 1)
                            else: out.append((s1, pieces + [(end - cur, None, None)]))
                        done = True; break
                if not done: out.append((s0, pieces + [(end - cur, None, None)]))
        step(st, off, [], 0)
        return out
    def write(self, st, b, off, n, pieces):
        """[off,off+n) of b now holds pieces (missing: unknown). list of states"""
        if st.ent(-n): return [st]
        res = []
        end = off + n
        # first remove the old content in the range
        work = [(st, list(st.segs.get(b, ())), [])]
        while work:
            s, todo, kept = work.pop()
            if not todo:
                new = list(kept); cur = off
                for ln, stream, pos in pieces:
                    if stream is not None: new.append(Seg(cur, cur + ln, stream, pos))
                    cur = cur + ln
                s.segs[b] = tuple(self.merge(s, new))
                res.append(s); continue
            sg = todo[0]; rest = todo[1:]
            # disjoint?
            for s1, before in self.order(s, sg.hi, off):
                if before: work.append((s1, rest, kept + [sg])); continue
                for s2, after in self.order(s1, end, sg.lo):
                    if after: work.append((s2, rest, kept + [sg])); continue
                    # overlap: left remainder / right remainder
                    for s3, noleft in self.order(s2, off, sg.lo):      # off <= lo: nothing left
                        for s4, noright in self.order(s3, sg.hi, end):
                            k = list(kept)
                            if not noleft: k.append(Seg(sg.lo, off, sg.stream, sg.pos))
                            if not noright: k.append(Seg(end, sg.hi, sg.stream, sg.pos + (end - sg.lo)))
                            work.append((s4.copy(), rest, k))
        return res
    def merge(self, st, segs):
        ch = True
        segs = [s for s in segs if not st.ent(s.lo - s.hi)]
        while ch:
            ch = False
            for i, a in enumerate(segs):
                for j, c in enumerate(segs):
                    if i == j or a.stream != c.stream: continue
                    if st.enteq(a.hi - c.lo) and st.enteq(c.pos - a.pos - (a.hi - a.lo)):
                        n = Seg(a.lo, c.hi, a.stream, a.pos)
                        segs = [s for k, s in enumerate(segs) if k not in (i, j)] + [n]
                        ch = True; break
                if ch: break
        return segs
    def memcopy(self, st, d, s, n, I, overlap_ok):
        """memcpy/memmove model: list of states"""
        self.access(st, d, n, I, "write", True); self.access(st, s, n, I, "read", False)
        if st.ent(-n): return [st]
        if d[0] == "p" and s[0] == "p" and d[1] == s[1] and d[1] in st.blk and not overlap_ok:
            s1 = st.copy()
            o1 = st.ent(s[2] - d[2] - n) or st.ent(d[2] - s[2] - n)
            if not o1: self.oblige(st, [s[2] - d[2] - n], "memcpy ranges do not overlap", I, "memcpy source and destination overlap")
            else: self.seen_obl.setdefault(("memcpy ranges do not overlap", I.i, ""), True)
        if d[1] not in st.blk or not st.blk[d[1]].live: return [st]
        moved = []
        if d[2].is_const() and n.is_const():
            lo, hi = d[2].c, d[2].c + n.c
            if s[2].is_const(): moved = [((d[1], k[1] - s[2].c + lo), v) for k, v in st.mem.items() if k[0] == s[1] and k[1] >= s[2].c and k[1] + v[1] <= s[2].c + n.c]
            gone = [k for k in st.mem if k[0] == d[1] and k[1] < hi and k[1] + st.mem[k][1] > lo]
        else: gone = [k for k in st.mem if k[0] == d[1]]
        for k in gone: del st.mem[k]
        for k, v in moved: st.mem[k] = v
        if s[1] not in st.blk:
            return self.write(st, d[1], d[2], n, [])
        out = []
        for s1, pieces in self.content(st, s[1], s[2], n):
            out.extend(self.write(s1, d[1], d[2], n, pieces))
        return out
    def free(self, st, p, I):
        if p[0] != "p": return [st]
        if p[1] is None: return [st]
        if p[1] not in st.blk: return [st]
        B = st.blk[p[1]]
        k = ("freed exactly once", I.i, B.name)
        if not B.live or not p[2].is_const() or p[2].c != 0 or B.kind not in ("data", "heap"):
            self.seen_obl[k] = False
            self.report(st, "freed exactly once", I, "%s is freed %s" % (B.name, "again" if not B.live else "but was not allocated on the heap"))
        else: self.seen_obl.setdefault(k, True)
        B = B.copy(); B.live = False; st.blk[p[1]] = B
        return [st]
    def malloc(self, st, size, I, tag="heap"):
        k = st.g.get(("alloc", I.i), 0); st.g[("alloc", I.i)] = k + 1
        p = self.newblk(st, "%s#%d%s" % (tag, I.i, "" if k == 0 else ".%d" % k), size, "heap")
        return p
    # ---------------- instructions
    def step(self, st, I):
        op = I.op
        if op == "alloca":
            nm = (I.j.get("name") or "tmp") + "@%d" % I.i
            kind = "data" if re.match(r"\[\d+ x i8\]$", I.j["aty"]) else "cells"
            st.env[I.i] = self.newblk(st, nm, I.j["size"], kind if kind == "data" else "cells"); 
            if kind == "data": st.blk[nm].kind = "stack"
            for k in [k for k in st.mem if k[0] == nm]: del st.mem[k]
            return [st]
        if op == "load":
            p = self.ev(st, I.o[0])
            w = self.tyw(I.ty); n = 8 if I.ty in ("ptr", "double") else ((w + 7) // 8 if w else 8)
            out = []
            for s, v in self.load(st, p, I.ty, I, n):
                s.env[I.i] = v; out.append(s)
            return out
        if op == "store":
            v = self.ev(st, I.o[0]); p = self.ev(st, I.o[1])
            vt = I.j.get("vty", "i64"); w = self.tyw(vt); n = (w + 7) // 8 if w else 8
            if v[0] in ("cmp", "not", "and", "or", "xor"):
                out = []
                for s, x in self.toint(st, v): out.extend(self.store(s, p, x, I, n))
                return out
            return self.store(st, p, v, I, n)
        if op == "getelementptr":
            b = self.ev(st, I.o[0])
            if b[0] != "p": st.env[I.i] = b; return [st]
            states = [(st, b[2])]
            for s in I.j.get("steps") or []:
                if s[0] == "f":
                    states = [(x, o + s[3]) for x, o in states]
                else:
                    nx = []
                    for x, o in states:
                        iv = self.ev(x, s[1])
                        if iv[0] != "i":
                            nx.append((x, o + V(fresh("idx")))); continue
                        for x2, e in self.rep(x, iv, True): nx.append((x2, o + e * s[2]))
                    states = nx
            out = []
            for x, o in states:
                if len(states) > 1: x = x.copy()
                x.env[I.i] = ("p", b[1], o); out.append(x)
            return out
        if op in ("bitcast", "addrspacecast", "freeze"):
            st.env[I.i] = self.ev(st, I.o[0]); return [st]
        if op == "ptrtoint" or op == "inttoptr":
            st.env[I.i] = self.ev(st, I.o[0]); return [st]
        if op in ("zext", "sext"):
            v = self.ev(st, I.o[0]); w = self.tyw(I.ty); out = []
            if v[0] == "x": st.env[I.i] = self.unknown(st, I.ty); return [st]
            for s, x in self.toint(st, v):
                for s2, e in self.rep(s, x, op == "sext"):
                    if s2 is st: s2 = s2
                    s2.env[I.i] = ("i", e, w); out.append(s2)
            return out
        if op == "trunc":
            v = self.ev(st, I.o[0]); w = self.tyw(I.ty)
            if v[0] != "i": st.env[I.i] = self.unknown(st, I.ty) if v[0] == "x" else v; return [st]
            if w == 1:
                e = v[1]
                if e.is_const(): st.env[I.i] = ("i", Lin(e.c & 1), 1); return [st]
                if st.ent(e) and st.ent(-e + 1): st.env[I.i] = ("i", e, 1); return [st]
                st.env[I.i] = self.unknown(st, "i1"); return [st]
            st.env[I.i] = ("i", v[1], w); return [st]
        if op == "icmp":
            st.env[I.i] = ("cmp", I.j["p"], self.ev(st, I.o[0]), self.ev(st, I.o[1])); return [st]
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            return self.arith(st, I)
        if op == "select":
            out = []
            for s, b in self.cond(st, self.ev(st, I.o[0])):
                v = self.ev(s, I.o[1] if b else I.o[2])
                s.env[I.i] = v; out.append(s)
            return out
        if op == "call": return self.call(st, I)
        if op == "insertvalue" and I.j.get("ix"):
            a = self.ev(st, I.o[0]) if I.o[0][0] == "v" else ("agg",); ix = tuple(I.j["ix"])
            if a[0] == "agg":
                st.env[I.i] = ("agg",) + tuple(x for x in a[1:] if x[0] != ix) + ((ix, self.ev(st, I.o[1])),); return [st]
        if op == "extractvalue" and I.j.get("ix") and I.o[0][0] == "v":
            a = self.ev(st, I.o[0]); ix = tuple(I.j["ix"])
            if a[0] == "agg":
                for k, v in a[1:]:
                    if k == ix: st.env[I.i] = v; return [st]
        if op in ("extractvalue", "insertvalue", "fadd", "fmul", "fdiv", "fsub", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "fcmp", "fneg"):
            st.env[I.i] = self.unknown(st, I.ty) if I.ty != "void" else ("x", "")
            return [st]
        if op in ("cmpxchg", "atomicrmw", "fence"):
            st.env[I.i] = ("x", op); return [st]
        raise Vanished("instruction %s in %s" % (op, self.fn.base))
    def arith(self, st, I):
        op = I.op; a = self.ev(st, I.o[0]); b = self.ev(st, I.o[1]); w = self.tyw(I.ty)
        if w is None: st.env[I.i] = ("x", op); return [st]
        if w == 1:
            if op in ("and", "or", "xor"):
                st.env[I.i] = (op, a, b); return [st]
        if a[0] == "p" or b[0] == "p":
            if op == "sub" and a[0] == "p" and b[0] == "p" and a[1] == b[1]:
                st.env[I.i] = ("i", a[2] - b[2], w); return [st]
            if op == "add" and a[0] == "p" and b[0] == "i": 
                return [self._set(s, I.i, ("p", a[1], a[2] + e)) for s, e in self.rep(st, b, True)]
            st.env[I.i] = self.unknown(st, I.ty); return [st]
        if a[0] != "i" or b[0] != "i":
            out = []
            if a[0] == "x" or b[0] == "x": st.env[I.i] = self.unknown(st, I.ty); return [st]
            raise Vanished("arith on booleans")
        x, y = a[1], b[1]
        def ret(s, e):
            s.env[I.i] = ("i", e, w); return s
        if op == "add": return [ret(st, self.trim(st, x + y, w))]
        if op == "sub": return [ret(st, self.trim(st, x - y, w))]
        if op == "mul":
            if x.is_const(): x, y = y, x; a, b = b, a
            if y.is_const():
                r = x * y.c
                if y.c > 0 and y.c & (y.c - 1) == 0 and self.ispow2(st, x): st.pow2 = frozenset(st.pow2) | {r}
                return [ret(st, r)]
            out = []
            for s, ex in self.rep(st, a, False):
                for s2, ey in self.rep(s, b, False):
                    v = self.unknown(s2, I.ty, "mul")
                    out.append(self._set(s2, I.i, v))
            return out
        if op == "shl" and y.is_const():
            r = x * (1 << y.c)
            if self.ispow2(st, x): st.pow2 = frozenset(st.pow2) | {r}
            return [ret(st, r)]
        if op == "xor" and y.is_const() and y.c == -1: return [ret(st, -x - 1)]
        if op in ("lshr", "udiv", "urem", "and") :
            if op == "and":
                if x.is_const() and not y.is_const(): a, b, x, y = b, a, y, x
                if not y.is_const():
                    out = []
                    for s, e in self.rep(st, a, False):
                        for s2, f in self.rep(s, b, False):
                            v = self.unknown(s2, I.ty, "and"); s2.cons.add(e - v[1]); s2.cons.add(f - v[1])
                            out.append(self._set(s2, I.i, v))
                    return out
                m = y.c & ((1 << w) - 1)
                if m & (m + 1):
                    # high mask ~(2^k-1) or other
                    lowm = (~m) & ((1 << w) - 1)
                    if lowm & (lowm + 1) == 0:
                        out = []
                        for s, e in self.rep(st, a, False):
                            for s2, q, r in self.divmod(s, e, Lin(lowm + 1), I): out.append(ret(s2, e - r))
                        return out
                    out = []
                    for s, e in self.rep(st, a, False):
                        v = self.unknown(s, I.ty, "and"); s.cons.add(-v[1] + m); s.cons.add(e - v[1]); out.append(self._set(s, I.i, v))
                    return out
                mod = Lin(m + 1); want = 2
            elif op == "lshr":
                if not y.is_const(): st.env[I.i] = self.unknown(st, I.ty); return [st]
                mod = Lin(1 << y.c); want = 1
            else: mod = None; want = 1 if op == "udiv" else 2
            out = []
            for s, e in self.rep(st, a, False):
                if op == "and" and mod.c == (1 << w): out.append(ret(s, e)); continue
                for s1, mm in ([(s, mod)] if mod is not None else self.rep(s, b, False)):
                    for r in self.divmod(s1, e, mm, I): out.append(ret(r[0].copy(), r[want]))
            return out
        if op in ("sdiv", "srem"):
            out = []
            for s, e in self.rep(st, a, True):
                for s1, m in self.rep(s, b, True):
                    for s2, neg in [(t, not ge) for t, ge in self.cmplin(s1, "ge", e, Lin(0))]:
                        if m.is_const() and m.c > 0:
                            for s3, q, r in self.divmod(s2, -e if neg else e, m, I):
                                out.append(ret(s3.copy(), (-q if neg else q) if op == "sdiv" else (-r if neg else r)))
                        else:
                            if not neg and s2.ent(m - 1):
                                for s3, q, r in self.divmod(s2, e, m, I): out.append(ret(s3.copy(), q if op == "sdiv" else r))
                            else:
                                self.divcheck(s2, m, I)
                                out.append(self._set(s2.copy(), I.i, self.unknown(s2, I.ty)))
            return out
        if op == "or":
            out = []
            for s, e in self.rep(st, a, False):
                for s2, f in self.rep(s, b, False):
                    if e == Lin(0): out.append(ret(s2, f)); continue
                    if f == Lin(0): out.append(ret(s2, e)); continue
                    d = self.disjoint_bits(s2, e, f)
                    if d: out.append(ret(s2, e + f)); continue
                    v = self.unknown(s2, I.ty, "or"); s2.cons.add(v[1] - e); s2.cons.add(v[1] - f); s2.cons.add(e + f - v[1])
                    out.append(self._set(s2, I.i, v))
            return out
        if op == "ashr" and y.is_const():
            out = []
            for s, e in self.rep(st, a, True):
                m = 1 << y.c
                if s.ent(e):
                    for r in self.divmod(s, e, Lin(m), I): out.append(ret(r[0], r[1]))
                else:
                    q = V(fresh("q")); s.cons.add(e - q * m); s.cons.add(-e + q * m + m - 1); out.append(ret(s, q))
            return out
        v = self.unknown(st, I.ty, op)
        st.env[I.i] = v; return [st]
    def divcheck(self, st, m, I):
        s = st.copy()
        if s.assume_eq(m): self.report(st, "no division by zero", I, "divisor may be zero")
        else: self.seen_obl.setdefault(("no division by zero", I.i, ""), True)
    def disjoint_bits(self, st, e, f):
        for x, y in ((e, f), (f, e)):
            # x multiple of 2^k and y < 2^k
            for k in (8, 16, 24, 32, 1, 4):
                m = 1 << k
                if x.c % m == 0 and all(c % m == 0 for _, c in x.t) and st.ent(-y + m - 1): return True
        return False
    def trim(self, st, e, w):
        """constant folding of the modulus for constants"""
        if e.is_const():
            c = e.c % (1 << w)
            if c >= 1 << (w - 1): c -= 1 << w
            return Lin(c)
        return e
    def _set(self, st, i, v): st.env[i] = v; return st
    # ---------------- calls
    def call(self, st, I):
        c = I.callee or ""
        if I.j.get("nr"): return []
        args = [self.ev(st, o) for o in I.o]
        for pat, fn in self.models:
            if (pat == c) if isinstance(pat, str) else pat.search(c):
                r = fn(self, st, I, args)
                if r is not None: return self._ret(I, r)
        r = self.builtin(st, I, c, args)
        if r is None:
            raise Vanished("call to %s in %s is not modelled" % (c, self.fn.base))
        return self._ret(I, r)
    def _ret(self, I, r):
        out = []
        for s, v in r:
            if v is not None: s.env[I.i] = v
            elif I.ty != "void": s.env[I.i] = self.unknown(s, I.ty, "ret")
            out.append(s)
        return out
    def usize(self, st, v):
        return self.rep(st, v, False)
    def builtin(self, st, I, c, args):
        if c.startswith("llvm.memcpy") or c == "memcpy" or c.startswith("llvm.memmove") or c == "memmove":
            out = []
            for s, n in self.usize(st, args[2]):
                for s2 in self.memcopy(s, args[0], args[1], n, I, "memmove" in c): out.append((s2, args[0]))
            return out
        if c.startswith("llvm.memset") or c == "memset":
            out = []
            for s, n in self.usize(st, args[2]):
                self.access(s, args[0], n, I, "memset", True)
                b = args[0][1] if args[0][0] == "p" else None
                if b in s.blk and s.blk[b].live:
                    for k in [k for k in s.mem if k[0] == b]:
                        o = args[0][2]
                        if o.is_const() and n.is_const() and (k[1] >= o.c + n.c or k[1] + s.mem[k][1] <= o.c): continue
                        del s.mem[k]
                    pc = []
                    if args[1] == ("i", Lin(0), 8) or (args[1][0] == "i" and args[1][1] == Lin(0)): pc = [(n, "ZERO", Lin(0))]
                    for s2 in self.write(s, b, args[0][2], n, pc): out.append((s2, args[0]))
                else: out.append((s, args[0]))
            return out
        if c in ("malloc", "operator new", "operator new[]"):
            return [(s, self.malloc(s, n, I)) for s, n in self.usize(st, args[0])]
        if c in ("free", "operator delete", "operator delete[]"):
            return [(s, None) for s in self.free(st, args[0], I)]
        if c.startswith("llvm."):
            m = re.match(r"llvm\.(umin|umax|smin|smax)\.i(\d+)", c)
            if m:
                out = []
                sg = m.group(1)[0] == "s"; mn = m.group(1).endswith("min")
                for s, x in self.rep(st, args[0], sg):
                    for s2, y in self.rep(s, args[1], sg):
                        for s3, le in self.cmplin(s2, "le", x, y):
                            out.append((s3, ("i", x if le == mn else y, int(m.group(2)))))
                return out
            return [(st, None)]
        return None
    # ---------------- fixpoint
    BUDGET = 150
    def run(self, st):
        self.work = [(0, None, st)]; self.salvage = False
        self.basecons = list(st.cons.s)        # about values fixed at entry: they hold for ever
        poly.DEADLINE[0] = time.time() + self.BUDGET
        try: return self.run_()
        except poly.TooLong: pass
        finally: poly.DEADLINE[0] = None
        # no fixpoint within the bound: what is left is followed without widening, then there is no answer
        self.salvage = True; self.MAXSTEP += 4000
        poly.DEADLINE[0] = time.time() + self.BUDGET / 2
        try: self.run_()
        except poly.TooLong: pass
        finally: poly.DEADLINE[0] = None
        raise Vanished("numeric analysis of %s exceeds its time bound" % self.fn.base)
    def run_(self):
        fn = self.fn
        work = self.work; later = []
        while work or later:
            # a loop is finished before what follows it; what a superseded loop state led to is dropped
            fromlater = not work
            b, pb, st = work.pop() if work else later.pop()
            if any(len(x) > 4 and self.wide[x[4][0]][2] != x[4][1] for x in st.loops.values()): continue
            if not fromlater and any(len(x) > 4 and b not in fn.loops[h] for h, x in st.loops.items()):
                later.append((b, pb, st)); continue
            self.steps += 1
            if poly.DEADLINE[0] and time.time() > poly.DEADLINE[0]: raise poly.TooLong()
            if self.steps > self.MAXSTEP: raise Vanished("numeric analysis of %s exceeds its bound" % fn.base)
            st.path = (st.path, b)
            # leave loops that do not contain b
            for h in [h for h in st.loops if b not in fn.loops[h]]: del st.loops[h]
            # phis
            if pb is not None:
                new = {}
                for I in fn.blocks[b]:
                    if I.op != "phi": break
                    for v, p in I.j["in"]:
                        if p == pb:
                            new[I.i] = self.ev(st, v) if v[0] != "u" else self.unknown(st, I.ty); break
                st.env.update(new)
            if b in fn.loops:
                st = self.loophead(b, pb, st)
                if st is None: continue
            states = [st]
            for I in fn.blocks[b][:-1]:
                if I.op == "phi": continue
                nx = []
                for s in states: nx.extend(self.step(s, I))
                states = nx
            T = fn.blocks[b][-1]
            for s in states:
                if T.op == "ret":
                    v = self.ev(s, T.o[0]) if T.o else None
                    self.rets.append((s, v, T))
                elif T.op == "br":
                    if len(T.j["t"]) == 1: work.append((T.j["t"][0], b, s))
                    else:
                        for s2, val in self.cond(s, self.ev(s, T.o[0])):
                            if s2 is s: s2 = s.copy()
                            work.append((T.j["t"][0] if val else T.j["t"][1], b, s2))
                elif T.op == "switch":
                    v = self.ev(s, T.o[0]); rest = [s]
                    w = v[2] if v[0] == "i" else 32
                    for k, t in T.j["cases"]:
                        nr = []
                        for x in rest:
                            for s2, eq in self.cmp(x, "eq", v, ("i", Lin(k), w)):
                                if s2 is x: s2 = x.copy()
                                if eq: work.append((t, b, s2))
                                else: nr.append(s2)
                        rest = nr
                    for x in rest: work.append((T.j["def"], b, x))
                elif T.op == "call" and T.j.get("nr"): pass
                elif T.op == "unreachable": pass
                else: raise Vanished("terminator " + T.op)
        self.ranks()
        return self
    # ---- loops
    def observables(self, st, h):
        """every linear expression the state holds, by place"""
        o = {}
        def get(k, v):
            n = [0]
            def f(e): o[k + (n[0],)] = e; n[0] += 1; return e
            tmap(v, f)
        for i in self.live[h]:
            v = st.env.get(i)
            if v is not None: get(("e", i), v)
        for k, v in st.env.items():
            if isinstance(k, tuple): get(("e", k), v)
        for k, (v, n) in st.mem.items(): get(("m", k), v)
        for b, sg in st.segs.items():
            for n, s in enumerate(segsort(sg)):
                o[("s", b, n, "lo")] = s.lo; o[("s", b, n, "hi")] = s.hi; o[("s", b, n, "pos")] = s.pos
        for b, B in st.blk.items(): o[("z", b)] = B.size
        for k, v in st.g.items():
            if isinstance(k, str): get(("g", k), v)
        return o
    def shape(self, st, h):
        s = []; z = lambda v: tmap(v, lambda e: "lin")
        for i in sorted(self.live[h]):
            v = st.env.get(i)
            if v is not None: s.append((i, repr(z(v))))
        for k, v in sorted(((k, v) for k, v in st.env.items() if isinstance(k, tuple)), key=str): s.append((k, repr(z(v))))
        for k, (v, n) in sorted(st.mem.items()): s.append((k, n, repr(z(v))))
        for b, sg in sorted(st.segs.items()): s.append((b, tuple(str(x.stream) for x in segsort(sg))))
        for b, B in sorted(st.blk.items()): s.append((b, B.kind, B.live))
        for k, v in sorted(st.g.items(), key=str):
            if isinstance(k, str): s.append((k, repr(z(v))))
        return tuple(s)
    def loophead(self, h, pb, st):
        inside = pb is not None and pb in self.fn.loops[h] and h in st.loops
        if not inside:
            for k in [k for k in st.g if isinstance(k, str) and k.startswith("rank:%d:" % h)]: del st.g[k]
            st.loops[h] = (0, fresh("loop"), self.observables(st, h), frozenset(v for e in st.cons.s for v in e.vars()))
            return st
        if not st.cons.feasible(): return None
        n, eid, entry, evars = st.loops[h][:4]
        st.loops[h] = (n + 1, eid, entry, evars)
        if n + 1 <= self.UNROLL: return st
        if self.salvage: return None
        # termination: one measure must decrease between any two visits of the widened head
        self.rankcheck(st, h)
        # canonicalise: every changed expression gets the name of its place; a name of the
        # previous visit is eliminated before it takes its new meaning
        for k in [k for k in st.g if isinstance(k, tuple) and k[0] in ("dm",)]: del st.g[k]
        obs = self.observables(st, h)
        keepv = set(evars); ren = {}; tmp = {}
        for e in entry.values(): keepv |= set(e.vars())
        sig = (h, eid, self.shape(st, h))
        prev = self.wide.get(sig)
        for k, e in sorted(obs.items(), key=lambda x: str(x[0])):
            if not (prev is not None and k in prev[1]):
                if k in entry and entry[k] == e: continue
                if prev is None and not e.is_const() and all(v in evars for v in e.vars()): continue
            cv = self._cv((h, eid, k)); tv = self._cv((h, eid, k, "new"))
            ren[k] = V(cv); tmp[tv] = cv
            st.cons.add(e - V(tv)); st.cons.add(V(tv) - e); keepv.add(tv)
        pw = set(self.pow2_after(st, ren, obs, keepv))
        own = set(tmp.values())
        assert not (own & keepv)
        if any(own & set(e.vars()) for t in st.tags.values() for e in lins(t)):
            st.tags = {v: t for v, t in st.tags.items() if not any(own & set(e.vars()) for e in lins(t))}
        st.nz = ()
        st2 = st
        pj = st.cons.project(keepv)
        st2.cons = Cons()
        for e in pj.s: st2.cons.add(Lin(e.c, tuple(sorted((tmp.get(v, v), k) for v, k in e.t))))
        self.rebind(st2, h, ren)
        st2.pow2 = frozenset(pw)
        if prev is None:
            for e in self.hints(st2, h):
                if st2.cons.entails(e): st2.cons.add(e)
            new = st2.cons
        else:
            old = prev[0].copy()
            for k in ren:
                if k not in prev[1] and k in prev[4]:
                    d = prev[4][k] - ren[k]; old.add(d); old.add(-d)
            if set(ren) <= set(prev[1]) and prev[3] <= st2.pow2 and all(st2.cons.entails(e) for e in old.s):
                return None
            cnt = prev[2]
            keep = [e for e in old.s if st2.cons.entails(e)]
            if cnt < 2: keep += [e for e in st2.cons.s if old.entails(e)]
            if cnt < 4: keep += [e for e in self.hints(st2, h) if st2.cons.entails(e) and old.entails(e)]
            A = equalities(old); B = equalities(st2.cons)
            for e in affine_join(A, B, {v for e in A + B for v in e.vars()}): keep += [e, -e]
            new = Cons()
            for e in keep: new.add(e)
            for e in self.basecons: new.add(e)
            st2.cons = new
            st2.pow2 = st2.pow2 & prev[3]
        self.rankset(st2, h)
        self.wide[sig] = (new.copy(), ren, (prev[2] + 1) if prev else 0, frozenset(st2.pow2), {k: e for k, e in obs.items() if k not in ren})
        if DBG: print("WIDE", self.name, h, n, len(work) if 0 else "", hash(sig) % 9973, (prev[2] + 1) if prev else 0, {str(k): str(e) for k, e in ren.items()} if not prev else "", "\n     ", new.s.keys())
        self.widened = getattr(self, "widened", set()) | {h}
        st2.loops[h] = (n + 1, eid, entry, evars, (sig, self.wide[sig][2]))
        return st2
    def moremeasures(self, st, h): return ()      # (name, value that is to decrease)
    def hints(self, st, h): return ()      # bounds to be kept when they hold at a widened loop head
    def pow2_after(self, st, ren, obs, keepv):
        for k, e in obs.items():
            if k in ren and self.ispow2(st, e): yield ren[k]
        for p in st.pow2:
            if all(v in keepv for v in p.vars()): yield p
    def ispow2(self, st, e):
        if e.is_const(): return e.c > 0 and e.c & (e.c - 1) == 0
        return e in st.pow2
    # ---- ranking functions
    def measures(self, h):
        m = self.__dict__.setdefault("_meas", {})
        if h in m: return m[h]
        out = []
        body = self.fn.loops[h]
        for b in body:
            t = self.fn.term(b)
            if t.op == "br" and len(t.j["t"]) == 2 and any(x not in body for x in t.j["t"]) and t.o[0][0] == "v":
                c = self.fn.ins[t.o[0][1]]
                if c.op == "icmp":
                    out.append((c.o[0], c.o[1], 1)); out.append((c.o[1], c.o[0], 1))
        m[h] = out
        return out
    def evhead(self, st, o, depth=0):
        if depth > 8: return None
        if o[0] == "c": return Lin(o[1])
        if o[0] == "a":
            v = st.env.get(("a", o[1])); return v[1] if v and v[0] == "i" else (v[2] if v and v[0] == "p" else None)
        if o[0] != "v": return None
        I = self.fn.ins[o[1]]
        if I.op == "phi" or o[1] in st.env and I.blk not in self.fn.loops[self._rh]:
            v = st.env.get(o[1])
            return v[1] if v and v[0] == "i" else (v[2] if v and v[0] == "p" else None)
        if I.op == "load":
            p = self.evptr(st, I.o[0], depth + 1)
            if p is None or not p[2].is_const(): return None
            c = st.mem.get((p[1], p[2].c))
            return c[0][1] if c and c[0][0] == "i" else (c[0][2] if c and c[0][0] == "p" else None)
        if I.op in ("add", "sub"):
            a = self.evhead(st, I.o[0], depth + 1); b = self.evhead(st, I.o[1], depth + 1)
            if a is None or b is None: return None
            return a + b if I.op == "add" else a - b
        if I.op in ("zext", "sext", "trunc", "freeze", "ptrtoint"): return self.evhead(st, I.o[0], depth + 1)
        if o[1] in st.env:
            v = st.env[o[1]]
            return v[1] if v[0] == "i" else (v[2] if v[0] == "p" else None)
        return None
    def evptr(self, st, o, depth=0):
        if o[0] == "a": v = st.env.get(("a", o[1])); return v if v and v[0] == "p" else None
        if o[0] != "v" or depth > 8: return None
        I = self.fn.ins[o[1]]
        if I.op == "getelementptr":
            b = self.evptr(st, I.o[0], depth + 1)
            if b is None: return None
            off = b[2]
            for s in I.j.get("steps") or []:
                if s[0] == "f": off = off + s[3]
                else:
                    e = self.evhead(st, s[1], depth + 1)
                    if e is None: return None
                    off = off + e * s[2]
            return ("p", b[1], off)
        if I.op == "load":
            p = self.evptr(st, I.o[0], depth + 1)
            if p is None or not p[2].is_const(): return None
            c = st.mem.get((p[1], p[2].c))
            return c[0] if c and c[0][0] == "p" else None
        v = st.env.get(o[1])
        return v if v and v[0] == "p" else None
    def rankset(self, st, h):
        self._rh = h
        for n, (a, b, k) in enumerate(self.measures(h)):
            x = self.evhead(st, a); y = self.evhead(st, b)
            key = "rank:%d:%d" % (h, n)
            if x is None or y is None: st.g.pop(key, None)
            else: st.g[key] = x - y
        for n, g in self.moremeasures(st, h): st.g["rank:%d:%s" % (h, n)] = g
        st.g["rank:%d:visited" % h] = True
    def rankcheck(self, st, h):
        self._rh = h
        good = set()
        had = "rank:%d:visited" % h in st.g
        for n, (a, b, k) in enumerate(self.measures(h)):
            key = "rank:%d:%d" % (h, n)
            if key not in st.g: continue
            old = st.g[key]
            x = self.evhead(st, a); y = self.evhead(st, b)
            if x is None or y is None: continue
            if st.ent(old - (x - y) - 1) and st.ent(old): good.add(n)
        for n, g in self.moremeasures(st, h):
            old = st.g.get("rank:%d:%s" % (h, n))
            if old is not None and st.ent(old - g - 1) and st.ent(old): good.add(n)
        for k in [k for k in st.g if isinstance(k, str) and k.startswith("rank:%d:" % h)]: del st.g[k]
        if not had:
            self.rank_fail.setdefault(h, None)
            return
        cur = self.rank_fail.get(h)
        self.rank_fail[h] = good if cur is None else (cur & good)
    def ranks(self):
        for h, good in self.rank_fail.items():
            ok = good is None or bool(good)
            I = self.fn.blocks[h][-1]
            for x in self.fn.blocks[h]:
                if x.d: I = x; break
            self.seen_obl[("loop makes progress", I.i, "")] = ok
            if not ok: self.sink("loop makes progress", I.where(), "%s: no measure of this loop is shown to decrease" % self.name, [])
    _cvs = {}
    def _cv(self, key):
        if key not in self._cvs: self._cvs[key] = fresh("L%s" % (str(key[2])[:20]))
        return self._cvs[key]
    def rebind(self, st, h, ren):
        def put(k, v):
            n = [0]
            def f(e):
                r = ren.get(k + (n[0],), e); n[0] += 1; return r
            return tmap(v, f)
        for i in list(st.env):
            if isinstance(i, tuple) or i in self.live[h]: st.env[i] = put(("e", i), st.env[i])
        for k, (v, n) in list(st.mem.items()): st.mem[k] = (put(("m", k), v), n)
        for b in list(st.blk):
            if ("z", b) in ren: B = st.blk[b].copy(); B.size = ren[("z", b)]; st.blk[b] = B
        for k in list(st.g):
            if isinstance(k, str): st.g[k] = put(("g", k), st.g[k])
        for b in list(st.segs):
            sg = segsort(st.segs[b]); new = []
            for n, s in enumerate(sg):
                new.append(Seg(ren.get(("s", b, n, "lo"), s.lo), ren.get(("s", b, n, "hi"), s.hi), s.stream, ren.get(("s", b, n, "pos"), s.pos)))
            st.segs[b] = tuple(new)
        # drop dead values
        for i in [i for i in st.env if not isinstance(i, tuple) and i not in self.live[h]]: 
            if self.fn.ins[i].op != "alloca": del st.env[i]
