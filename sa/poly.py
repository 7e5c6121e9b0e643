"""Linear integer constraints: exact polyhedra operations (emptiness, entailment,
projection).  Used as the numeric abstract domain; no external solver."""
from fractions import Fraction
from math import gcd
import functools, time
DEADLINE = [None]
class TooLong(Exception): pass

class Lin:
    """c + sum k*v, integer coefficients, immutable"""
    __slots__ = ("c", "t", "h")
    def __init__(self, c=0, t=()):
        self.c = c; self.t = t; self.h = hash((c, t))
    def __eq__(a, b): return isinstance(b, Lin) and a.c == b.c and a.t == b.t
    def __hash__(self): return self.h
    def __add__(a, b):
        if isinstance(b, int): return Lin(a.c + b, a.t)
        if not b.t: return Lin(a.c + b.c, a.t)
        if not a.t: return Lin(a.c + b.c, b.t)
        d = dict(a.t)
        for v, k in b.t:
            n = d.get(v, 0) + k
            if n: d[v] = n
            else: d.pop(v, None)
        return Lin(a.c + b.c, tuple(sorted(d.items())))
    __radd__ = __add__
    def __neg__(a): return Lin(-a.c, tuple((v, -k) for v, k in a.t))
    def __sub__(a, b):
        if isinstance(b, int): return Lin(a.c - b, a.t)
        return a + (-b)
    def __rsub__(a, b): return (-a) + b
    def __mul__(a, k):
        if k == 0: return Lin(0)
        return Lin(a.c * k, tuple((v, x * k) for v, x in a.t))
    __rmul__ = __mul__
    def is_const(self): return not self.t
    def vars(self): return [v for v, _ in self.t]
    def coef(self, v):
        for x, k in self.t:
            if x == v: return k
        return 0
    def subst(self, v, e):
        k = self.coef(v)
        if k == 0: return self
        return Lin(self.c, tuple(x for x in self.t if x[0] != v)) + e * k
    def __repr__(self):
        s = []
        for v, k in self.t:
            n = NAMES.get(v, "v%d" % v)
            s.append(("%+d*%s" % (k, n)) if abs(k) != 1 else ("+" if k > 0 else "-") + n)
        if self.c or not s:
            c = self.c
            for p in (64, 63, 47, 32, 31):
                if c and abs(c) >= 1 << 31 and abs(c - (1 << p)) < 4096: s.append("+2^%d%+d" % (p, c - (1 << p))); c = None; break
            if c is not None: s.append("%+d" % c)
        r = "".join(s)
        return r[1:] if r.startswith("+") else r

NAMES = {}
_next = [0]
def fresh(name="v"):
    _next[0] += 1
    NAMES[_next[0]] = "%s" % name if name not in _used else "%s.%d" % (name, _next[0])
    _used.add(name)
    return _next[0]
_used = set()
def L(x): return x if isinstance(x, Lin) else Lin(x)
def V(v): return Lin(0, ((v, 1),))

def norm(e):
    """tighten e >= 0 over the integers"""
    if not e.t: return e
    g = 0
    for _, k in e.t: g = gcd(g, abs(k))
    if g > 1: return Lin(e.c // g, tuple((v, k // g) for v, k in e.t))
    return e

def _feasible(cons): return _model(cons) is not None
@functools.lru_cache(maxsize=100000)
def _model(cons):
    """rational feasibility of a frozenset of e>=0 (general simplex with bounds)"""
    lo = {}; hi = {}; rows = {}
    for e in cons:
        if not e.t:
            if e.c < 0: return None
            continue
        if len(e.t) == 1:
            v, k = e.t[0]
            if k > 0:
                b = -(e.c // k)            # v >= ceil(-c/k)
                if v not in lo or b > lo[v]: lo[v] = b
            else:
                b = e.c // (-k)
                if v not in hi or b < hi[v]: hi[v] = b
        else:
            if e.t[0][1] > 0: key = e.t; l = -e.c; 
            else: key = tuple((v, -k) for v, k in e.t); l = None; h = e.c
            r = rows.setdefault(key, [None, None])
            if l is not None:
                if r[0] is None or l > r[0]: r[0] = l
            else:
                if r[1] is None or h < r[1]: r[1] = h
    for v in lo:
        if v in hi and lo[v] > hi[v]: return None
    if not rows: return {v: lo[v] if v in lo else hi[v] for v in set(lo) | set(hi)}
    for l, h in rows.values():
        if l is not None and h is not None and l > h: return None
    # general simplex: slack s_i = row_i
    val = {}
    vs = set(v for key in rows for v, _ in key)
    for v in vs:
        val[v] = Fraction(lo[v] if v in lo else (hi[v] if v in hi else 0))
    tab = {}; B = {}
    for i, (key, (l, h)) in enumerate(sorted(rows.items())):
        s = ("s", i)
        tab[s] = {v: Fraction(k) for v, k in key}
        if l is not None: lo[s] = l
        if h is not None: hi[s] = h
        val[s] = sum(k * val[v] for v, k in key)
    order = lambda x: (1, x[1]) if isinstance(x, tuple) else (0, x)
    it = 0
    while True:
        it += 1
        if it > 3000: STAT['giveup'] += 1; return {}
        if it % 50 == 0 and DEADLINE[0] and time.time() > DEADLINE[0]: raise TooLong()
        bad = None; worst = 0
        for b in sorted(tab, key=order):
            if b in lo and val[b] < lo[b]: d = lo[b] - val[b]; w = True
            elif b in hi and val[b] > hi[b]: d = val[b] - hi[b]; w = False
            else: continue
            if it > 60: bad = (b, w); break          # Bland's rule: no cycling
            if d > worst: worst = d; bad = (b, w)
        if bad is None: return {v: x for v, x in val.items() if not isinstance(v, tuple)}
        b, low = bad
        row = tab[b]; piv = None
        for n in sorted(row, key=order):
            k = row[n]
            if low:
                if (k > 0 and (n not in hi or val[n] < hi[n])) or (k < 0 and (n not in lo or val[n] > lo[n])): piv = n; break
            else:
                if (k < 0 and (n not in hi or val[n] < hi[n])) or (k > 0 and (n not in lo or val[n] > lo[n])): piv = n; break
        if piv is None: return None
        tgt = Fraction(lo[b] if low else hi[b])
        a = row[piv]
        theta = (tgt - val[b]) / a
        val[b] = tgt; val[piv] += theta
        for o, r in tab.items():
            if o != b and piv in r: val[o] += r[piv] * theta
        # pivot
        nr = {n: -k / a for n, k in row.items() if n != piv}
        nr[b] = 1 / a
        del tab[b]
        for o in tab:
            r = tab[o]
            if piv in r:
                k = r.pop(piv)
                for n, x in nr.items():
                    y = r.get(n, 0) + k * x
                    if y: r[n] = y
                    else: r.pop(n, None)
        tab[piv] = nr

_MODELS = {}
_RECENT = []
def sat(e, m):
    x = e.c
    for v, k in e.t:
        if v not in m: return False
        x += k * m[v]
    return x >= 0
STAT = {"giveup": 0}

class Cons:
    """a conjunction of e >= 0"""
    __slots__ = ("s", "lo", "hi", "adj")
    def __init__(self, s=(), lo=None, hi=None):
        self.s = dict.fromkeys(s) if not isinstance(s, dict) else s
        self.lo = lo if lo is not None else {}; self.hi = hi if hi is not None else {}
    def copy(self): return Cons(dict(self.s), dict(self.lo), dict(self.hi))
    def add(self, e):
        e = norm(e)
        if not e.t: 
            if e.c < 0: self.s[e] = None
            return
        if len(e.t) == 1:
            v, k = e.t[0]
            if k > 0: 
                b = -(e.c // k)
                if v in self.lo and self.lo[v] >= b: return
                if v in self.lo: self.s.pop(norm(V(v) - self.lo[v]), None)
                self.lo[v] = b
            else:
                b = e.c // (-k)
                if v in self.hi and self.hi[v] <= b: return
                if v in self.hi: self.s.pop(norm(-V(v) + self.hi[v]), None)
                self.hi[v] = b
        self.s[e] = None
    def rng(self, e):
        l = h = e.c
        for v, k in e.t:
            a = self.lo.get(v); b = self.hi.get(v)
            if k < 0: a, b = b, a
            l = None if (l is None or a is None) else l + k * a
            h = None if (h is None or b is None) else h + k * b
        return l, h
    def component(self, vs):
        """constraints connected to vars vs"""
        todo = set(vs); seen = set(); out = []
        rest = [e for e in self.s]
        ch = True
        while ch:
            ch = False; r2 = []
            for e in rest:
                if not e.t: out.append(e); continue
                if any(v in todo for v, _ in e.t):
                    out.append(e)
                    for v, _ in e.t:
                        if v not in todo: todo.add(v); ch = True
                else: r2.append(e)
            rest = r2
        return out
    def feasible(self, extra=None):
        if extra is None: return _feasible(frozenset(self.s))
        if not extra.t: return extra.c >= 0
        l, h = self.rng(extra)
        if h is not None and h < 0: return False
        if l is not None and l >= 0: return True
        comp = frozenset(self.component(extra.vars()))
        ms = _MODELS.get(comp)
        if ms is None:
            ms = [m for m in _RECENT if all(sat(e, m) for e in comp)]
            if len(_MODELS) > 20000: _MODELS.clear()
            _MODELS[comp] = ms
        for m in ms:
            if sat(extra, m): return True
        m = _model(comp | {norm(extra)})
        if m is None: return False
        if m:
            ms.append(m); del ms[:-12]
            _RECENT.append(m); del _RECENT[:-24]
        return True
    def entails(self, e):
        if not e.t: return e.c >= 0
        l, h = self.rng(e)
        if l is not None and l >= 0: return True
        if h is not None and h < 0: return False
        if e in self.s: return True
        return not self.feasible(-e - 1)
    def entails_eq(self, e): return self.entails(e) and self.entails(-e)
    def project(self, keep):
        """eliminate every variable not in keep (Fourier-Motzkin)"""
        cs = set(self.s)
        while True:
            cnt = {}
            for e in cs:
                for v, k in e.t:
                    if v in keep: continue
                    p = cnt.setdefault(v, [0, 0]); p[0 if k > 0 else 1] += 1
            if not cnt: break
            if DEADLINE[0] and time.time() > DEADLINE[0]: raise TooLong()
            # an equality with a unit coefficient eliminates its variable without growth
            done = False
            for e in () if len(cs) < 80 else sorted((e for e in cs if e.t and e.t[0][1] > 0 and -e in cs), key=lambda e: len(e.t)):
                v = next((x for x, k in e.t if x in cnt and abs(k) == 1), None)
                if v is None: continue
                k = e.coef(v)
                rest = Lin(e.c, tuple(x for x in e.t if x[0] != v)) * (-k)      # v == rest
                ns = set()
                for f in cs:
                    f = norm(f.subst(v, rest))
                    if f.t or f.c < 0: ns.add(f)
                cs = tighten(ns); done = True; break
            if done: continue
            v = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], x))
            pos = [e for e in cs if e.coef(v) > 0]; neg = [e for e in cs if e.coef(v) < 0]
            cs = {e for e in cs if e.coef(v) == 0}
            # use an equality when there is one
            for p in pos:
                for n in neg:
                    a, b = p.coef(v), -n.coef(v)
                    e = norm(p * b + n * a)
                    if e.t or e.c < 0: cs.add(e)
            cs = tighten(cs)
            if len(cs) > 400: cs = reduce(cs)
        return Cons_from(cs)

def tighten(cs):
    best = {}
    for e in cs:
        if e.t not in best or e.c < best[e.t]: best[e.t] = e.c
    return {Lin(c, t) for t, c in best.items()}
def reduce(cs):
    cs = list(cs); out = []
    for i, e in enumerate(cs):
        if DEADLINE[0] and time.time() > DEADLINE[0]: raise TooLong()
        others = frozenset(out + cs[i+1:])
        if _feasible(others | {norm(-e - 1)}): out.append(e)
    return set(out)
def Cons_from(cs):
    c = Cons()
    for e in cs: c.add(e)
    return c

# ---- affine equalities (Karr's domain)
def equalities(cons):
    """equalities among the constraints: those present in both directions"""
    s = set(cons.s); return [e for e in s if -e in s and e.t and e.t[0][1] > 0]
def _solve(eqs, vs):
    """row echelon form of eqs over the ordered variables vs: ({pivot: row}, consistent)"""
    rows = []
    for e in eqs:
        r = {v: Fraction(k) for v, k in e.t}; r[None] = Fraction(e.c)
        for p, q in rows:
            if r.get(p):
                k = r[p]
                for v, x in q.items():
                    y = r.get(v, 0) - k * x
                    if y: r[v] = y
                    else: r.pop(v, None)
        p = next((v for v in vs if r.get(v)), None)
        if p is None: continue
        k = r[p]; r = {v: x / k for v, x in r.items() if x}
        for i, (p2, q) in enumerate(rows):
            if q.get(p):
                k = q[p]; n = dict(q)
                for v, x in r.items():
                    y = n.get(v, 0) - k * x
                    if y: n[v] = y
                    else: n.pop(v, None)
                rows[i] = (p2, n)
        rows.append((p, r))
    return dict(rows)
def _space(eqs, vs):
    R = _solve(eqs, vs)
    pt = {v: (-R[v].get(None, Fraction(0)) if v in R else Fraction(0)) for v in vs}
    dirs = []
    for f in vs:
        if f in R: continue
        d = {f: Fraction(1)}
        for p, r in R.items():
            if r.get(f): d[p] = -r[f]
        dirs.append(d)
    return pt, dirs
def affine_join(A, B, vs):
    """equalities that hold on the affine hull of both sets of equalities"""
    vs = sorted(vs)
    p1, d1 = _space(A, vs); p2, d2 = _space(B, vs)
    gens = d1 + d2 + [{v: p2[v] - p1[v] for v in vs if p2[v] != p1[v]}]
    # normals: solutions n of n.g = 0 for every generator
    eqs = []
    for g in gens:
        den = 1
        for x in g.values(): den = den * x.denominator // gcd(den, x.denominator)
        t = tuple(sorted((v, int(x * den)) for v, x in g.items() if x))
        if t: eqs.append(Lin(0, t))
    _, normals = _space(eqs, vs)
    out = []
    for n in normals:
        c = -sum(k * p1[v] for v, k in n.items())
        den = 1
        for x in list(n.values()) + [c]: den = den * x.denominator // gcd(den, x.denominator)
        t = tuple(sorted((v, int(x * den)) for v, x in n.items() if x))
        if t: out.append(Lin(int(c * den), t))
    return out
