"""Byte provenance analysis for the block cipher: every byte is kept in normal form as a sum over GF(2^8) of constants, input bytes
and table functions applied to such sums; control and addresses are constants or linear in the number of blocks.  Nothing is run:
inputs, keys and vectors stay unknown, tables are replaced by the function they tabulate."""
import re
from poly import *
import poly
from ir import Vanished

# ---------------------------------------------------------------- GF(2^8)
def gmul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a <<= 1
        if a & 256: a ^= 0x11b
        b >>= 1
    return r
MUL = {}
def mul(a, b):
    k = (a, b)
    if k not in MUL: MUL[k] = gmul(a, b)
    return MUL[k]
INV = [0] * 256
for _a in range(1, 256):
    if INV[_a]: continue
    for _b in range(1, 256):
        if gmul(_a, _b) == 1: INV[_a] = _b; INV[_b] = _a; break
def _sb(x):
    b = INV[x]; r = 0x63
    for i in range(5): r ^= ((b << i) | (b >> (8 - i))) & 255
    return r
SBOX = [_sb(x) for x in range(256)]
SINV = [0] * 256
for _x, _y in enumerate(SBOX): SINV[_y] = _x
FUN = {"id": list(range(256)), "S": SBOX, "Si": SINV}

# ---------------------------------------------------------------- byte terms
ATOMS = {}; ATOML = []; ALOC = {}
def atom(*k):
    i = ATOMS.get(k)
    if i is None: i = ATOMS[k] = len(ATOML); ATOML.append(k)
    return (0, ((i, 1),))
def bx(a, b):
    if not b[1]: return (a[0] ^ b[0], a[1])
    if not a[1]: return (a[0] ^ b[0], b[1])
    d = dict(a[1])
    for i, c in b[1]:
        n = d.get(i, 0) ^ c
        if n: d[i] = n
        else: d.pop(i, None)
    return (a[0] ^ b[0], tuple(sorted(d.items())))
def bm(a, k):
    if k == 1: return a
    if k == 0: return (0, ())
    return (mul(a[0], k), tuple((i, mul(c, k)) for i, c in a[1]))
def fn(f, x):
    if not x[1]: return (FUN[f][x[0]], ())
    if f == "id": return x
    if x[0] == 0 and len(x[1]) == 1 and x[1][0][1] == 1:
        k = ATOML[x[1][0][0]]
        if k[0] == "f" and {k[1], f} == {"S", "Si"}: return k[2]
    return atom("f", f, x)
ZERO = (0, ())
def const(x): return not x[1]
def subst(t, m, memo):
    """m: atom id -> term"""
    r = memo.get(t)
    if r is None:
        r = (t[0], ())
        for i, c in t[1]:
            if i in m: y = m[i]
            else:
                k = ATOML[i]
                y = fn(k[1], subst(k[2], m, memo)) if k[0] == "f" else atom("t", k[1], k[2], subst(k[3], m, memo)) if k[0] == "t" else (0, ((i, 1),))
            r = bx(r, bm(y, c))
        memo[t] = r
    return r
def show(t, d=2):
    s = []
    for i, c in t[1]:
        k = ATOML[i]
        n = "%s(%s)" % (k[1], show(k[2], d - 1) if d > 0 else "..") if k[0] == "f" else "".join(str(x) for x in k[:2]) + "".join("[%s]" % x for x in k[2:] if not isinstance(x, tuple))
        s.append(n if c == 1 else "%d*%s" % (c, n))
    if t[0] or not s: s.append("0x%02x" % t[0])
    return " ^ ".join(s[:6]) + (" ^ .." if len(s) > 6 else "")
def differ(a, b, depth=0):
    """innermost place where a deviates from b: (atom of a or None, text)"""
    d = bx(a, b)
    da = [(i, c) for i, c in a[1] if dict(b[1]).get(i, 0) != c]; db = [(i, c) for i, c in b[1] if dict(a[1]).get(i, 0) != c]
    fa = [(i, c) for i, c in da if ATOML[i][0] == "f"]; fb = [(i, c) for i, c in db if ATOML[i][0] == "f"]
    if len(da) == len(fa) == 1 and len(db) == len(fb) == 1 and fa[0][1] == fb[0][1] and ATOML[fa[0][0]][1] == ATOML[fb[0][0]][1] and a[0] == b[0] and depth < 60:
        r = differ(ATOML[fa[0][0]][2], ATOML[fb[0][0]][2], depth + 1)
        return r if r[0] is not None else (fa[0][0], r[1])
    if len(fa) and len(fa) == len(fb) == len(da) == len(db) and a[0] == b[0] and depth < 60:
        x = sorted(fa, key=lambda z: z[0])[0]
        ys = [y for y in fb if y[1] == x[1] and ATOML[y[0]][1] == ATOML[x[0]][1]]
        if ys:
            r = differ(ATOML[x[0]][2], ATOML[ys[0][0]][2], depth + 1)
            return r if r[0] is not None else (x[0], r[1])
    at = next((i for i, c in da if i in ALOC), None)
    return at, "has %s where the standard has %s" % (show((a[0], tuple(da)), 1) if da or a[0] != b[0] else "nothing", show((b[0], tuple(db)), 1) if db or a[0] != b[0] else "nothing")

# ---------------------------------------------------------------- the standard, in the same domain
def spec_schedule(key):
    w = [[key[4 * i + j] for j in range(4)] for i in range(4)]; rc = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = [fn("S", x) for x in t[1:] + t[:1]]; t[0] = bx(t[0], (rc, ())); rc = mul(rc, 2)
        w.append([bx(a, b) for a, b in zip(w[i - 4], t)])
    return [sum((w[4 * r + c] for c in range(4)), []) for r in range(11)]
def _add(s, k): return [bx(a, b) for a, b in zip(s, k)]
def _mix(s, m):
    o = []
    for c in range(4):
        for r in range(4):
            t = ZERO
            for q in range(4): t = bx(t, bm(s[4 * c + q], m[(q - r) % 4]))
            o.append(t)
    return o
def _shift(s, d): return [s[4 * ((c + d * r) % 4) + r] for c in range(4) for r in range(4)]
def spec_encrypt(rk, x):
    s = _add(x, rk[0])
    for r in range(1, 11):
        s = _shift([fn("S", b) for b in s], 1)
        if r < 10: s = _mix(s, (2, 3, 1, 1))
        s = _add(s, rk[r])
    return s
def spec_decrypt(rk, x):
    s = _add(x, rk[10])
    for r in range(9, -1, -1):
        s = [fn("Si", b) for b in _shift(s, -1)]
        s = _add(s, rk[r])
        if r: s = _mix(s, (14, 11, 13, 9))
    return s

# ---------------------------------------------------------------- tables
class Tables:
    """a constant table of 256 entries is, byte column by byte column, c * f(index) ^ d for a function f of the standard"""
    def __init__(s, P): s.P = P; s.raw_ = {}; s.col_ = {}; s.used = {}
    def size(s, g): return len(s.raw(g))
    def raw(s, g):
        if g in s.raw_: return s.raw_[g]
        G = s.P.globals.get(g); r = None
        if G and G.get("const") and "init" in G:
            v = G["init"]; m = re.match(r"\[(\d+) x i(\d+)\]$", G["ty"])
            if m:
                w = int(m.group(2)) // 8
                if isinstance(v, dict) and "bytes" in v: v = v["bytes"]
                elif isinstance(v, dict) and "str" in v: v = [ord(c) for c in v["str"]]
                elif isinstance(v, dict) and "zero" in v: v = [0] * int(m.group(1))
                if isinstance(v, list) and len(v) == int(m.group(1)) and all(isinstance(x, int) for x in v):
                    r = [(x >> (8 * k)) & 255 for x in v for k in range(w)]
        s.raw_[g] = r
        return r
    def column(s, g, off, stride):
        """-> (f, c, d, [bad entries]) or None"""
        k = (g, off, stride)
        if k in s.col_: return s.col_[k]
        b = s.raw(g); v = [b[i * stride + off] for i in range(256)]; best = None
        for f, F in FUN.items():
            cand = {}
            for i in range(0, 255, 3):
                df = F[i] ^ F[i + 1]; c = mul(v[i] ^ v[i + 1], INV[df]); d = v[i] ^ mul(c, F[i])
                cand[(c, d)] = cand.get((c, d), 0) + 1
            for (c, d), n in cand.items():
                bad = [i for i in range(256) if v[i] != mul(c, F[i]) ^ d]
                if best is None or len(bad) < len(best[3]): best = (f, c, d, bad)
        if len(best[3]) > 64: best = None
        s.col_[k] = best
        return best

class Stop(Exception): pass

class St:
    def __init__(s): s.env = {}; s.mem = {}; s.cons = Cons(); s.base = Lin(0); s.visit = 0; s.gen = None; s.snap = None; s.cur = {}; s.prev = None; s.prevout = None; s.it = 0; s.path = None; s.previn = None; s.strict = False; s.genmap = {}
    def copy(s):
        c = St(); c.__dict__.update(s.__dict__)
        c.env = dict(s.env); c.mem = {k: dict(v) for k, v in s.mem.items()}; c.cons = s.cons.copy(); c.cur = dict(s.cur); c.genmap = dict(s.genmap)
        return c

class Bytes:
    """one function; blocks: name -> (size Lin, const?), streams: {'in': name, 'out': name} when the length is not constant"""
    MAXSTEP = 400000
    def __init__(s, f, T, report, blocks, consts=(), stream=None, mode=None, term=None, unroll=0):
        s.f = f; s.T = T; s.report = report; s.blocks = dict(blocks); s.consts = set(consts); s.stream = stream; s.mode = mode; s.term = term
        s.UN = unroll; s.outer = None; s.drop = set(); s.rets = []; s.obl = {}; s.steps = 0; s.lookups = {}; s.stores = {}
    def bad(s, st, rule, I, detail):
        tr = []; p = st.path
        while p: tr.append(p[1]); p = p[0]
        L = []
        for b in reversed(tr[:400]):
            w = s.f.blocks[b][0].where()
            if not L or L[-1] != w: L.append(w)
        s.report(rule, I.where() if I is not None else s.f.file, "%s: %s" % (s.f.base.split("::")[-1], detail), L[-40:]); s.obl[(rule, I.i if I is not None else None, detail)] = False
    def oblige(s, st, good, rule, I, detail):
        k = (rule, I.i if I is not None else None, detail)
        if not good: s.bad(st, rule, I, detail); return False
        s.obl.setdefault(k, True); return True
    # ---- values
    def ev(s, st, o):
        k = o[0]
        if k == "c": return ("i", o[2], Lin(o[1]))
        if k == "v":
            v = st.env.get(o[1])
            if v is None: raise Vanished("value %d of %s" % (o[1], s.f.base))
            return v
        if k == "a": return st.env[("a", o[1])]
        if k == "n": return ("p", None, Lin(0))
        if k == "g": return ("p", "@" + o[1], Lin(0))
        if k == "ge":
            b = s.ev(st, o[1]); return (b[0], b[1], b[2] + o[2]) + b[3:]
        if k == "u" or k == "z" and o[1] != "ptr": return ("u",)
        if k == "z": return ("p", None, Lin(0))
        raise Vanished("operand %s in %s" % (o, s.f.base))
    def width(s, ty):
        m = re.match(r"i(\d+)$", ty)
        if not m: raise Vanished("type %s in %s" % (ty, s.f.base))
        return int(m.group(1))
    def tobytes(s, v):
        if v[0] == "w": return list(v[1])
        if v[0] == "i":
            if not v[2].is_const(): raise Vanished("length mixed with data in %s" % s.f.base)
            c = v[2].c
            return [((c >> (8 * k)) & 255, ()) for k in range(max(1, v[1] // 8))]
        if v[0] == "u": raise Vanished("undefined value in %s" % s.f.base)
        raise Vanished("pointer used as data in %s" % s.f.base)
    def pack(s, by):
        if all(const(b) for b in by):
            c = sum(b[0] << (8 * k) for k, b in enumerate(by)); w = 8 * len(by)
            if c >= 1 << (w - 1): c -= 1 << w
            return ("i", w, Lin(c))
        return ("w", tuple(by))
    def wrap(s, c, w):
        c &= (1 << w) - 1
        return c - (1 << w) if w > 1 and c >= 1 << (w - 1) else c
    def uns(s, c, w): return c & ((1 << w) - 1)
    # ---- arithmetic
    def arith(s, st, I):
        a, b = s.ev(st, I.o[0]), s.ev(st, I.o[1]); op = I.op; w = s.width(I.ty)
        if a[0] == "b" or b[0] == "b":
            A = s.truth(a); B = s.truth(b)
            if op in ("and", "or", "xor") and A is not None and B is not None: return ("b", {"and": A and B, "or": A or B, "xor": A != B}[op])
            raise Vanished("logic in %s" % s.f.base)
        if a[0] == "i" and b[0] == "i":
            x, y = a[2], b[2]
            if x.is_const() and y.is_const():
                p, q = x.c, y.c; up, uq = s.uns(p, w), s.uns(q, w)
                if op == "add": r = p + q
                elif op == "sub": r = p - q
                elif op == "mul": r = p * q
                elif op == "and": r = up & uq
                elif op == "or": r = up | uq
                elif op == "xor": r = up ^ uq
                elif op == "shl": r = up << uq
                elif op == "lshr": r = up >> uq
                elif op == "ashr": r = p >> uq
                elif op in ("udiv", "urem", "sdiv", "srem"):
                    if q == 0: raise Vanished("division by zero in %s" % s.f.base)
                    if op == "udiv": r = up // uq
                    elif op == "urem": r = up % uq
                    else:
                        t = abs(p) // abs(q); t = t if (p < 0) == (q < 0) else -t
                        r = t if op == "sdiv" else p - t * q
                else: raise Vanished("%s in %s" % (op, s.f.base))
                return ("i", w, Lin(s.wrap(r, w)))
            if op == "add": return ("i", w, x + y)
            if op == "sub": return ("i", w, x - y)
            if op == "mul" and (x.is_const() or y.is_const()): return ("i", w, x * y.c if y.is_const() else y * x.c)
            if y.is_const():
                q = y.c
                if op == "shl": return ("i", w, x * (1 << q))
                k = 1 << q if op in ("lshr", "ashr") else q + 1 if op == "and" and q > 0 and q & (q + 1) == 0 else q
                if op in ("lshr", "ashr", "udiv", "sdiv", "urem", "srem", "and") and k > 0 and all(c % k == 0 for _, c in x.t) and st.cons.entails(x):
                    if op in ("urem", "srem", "and"): return ("i", w, Lin(x.c % k))
                    return ("i", w, Lin(x.c // k, tuple((v, c // k) for v, c in x.t)))
                if op == "and" and q < 0 and (-q) & (-q - 1) == 0 and all(c % -q == 0 for _, c in x.t) and st.cons.entails(x): return ("i", w, x - x.c % -q)
            raise Vanished("%s of the length in %s" % (op, s.f.base))
        if op in ("shl", "lshr", "ashr") and b[0] == "i" and b[2].is_const():
            n = b[2].c; A = s.tobytes(a)
            if n % 8 == 0:
                k = n // 8
                if op == "shl": return s.pack([ZERO] * k + A[:len(A) - k])
                if op == "ashr" and not (const(A[-1]) and A[-1][0] < 128): raise Vanished("signed shift of data in %s" % s.f.base)
                return s.pack(A[k:] + [ZERO] * k)
            raise Vanished("data shifted by %d bits in %s" % (n, s.f.base))
        A, B = s.tobytes(a), s.tobytes(b)
        if op == "xor": return s.pack([bx(x, y) for x, y in zip(A, B)])
        if op in ("and", "or", "add"):
            o = []; carry = False
            for x, y in zip(A, B):
                if const(x) and const(y) and op != "add": o.append(((x[0] & y[0]) if op == "and" else x[0] | y[0], ())); continue
                if const(y): x, y = y, x
                if not const(x) or x[0] not in (0, 255): raise Vanished("%s of two data bytes in %s" % (op, s.f.base))
                if op == "and": o.append(y if x[0] == 255 else ZERO)
                elif x[0] == 0: o.append(y)
                elif op == "or": o.append((255, ()))
                else: raise Vanished("sum of data in %s" % s.f.base)
            return s.pack(o)
        raise Vanished("%s of data in %s" % (op, s.f.base))
    def truth(s, v):
        if v[0] == "b": return v[1] if isinstance(v[1], bool) else None
        if v[0] == "i" and v[2].is_const(): return v[2].c & 1 == 1
        return None
    def cmp(s, st, I):
        p = I.j["p"]; a, b = s.ev(st, I.o[0]), s.ev(st, I.o[1])
        if a[0] == "p" and b[0] == "p":
            if a[1] != b[1]:
                if p in ("eq", "ne"): return ("b", p == "ne")
                raise Vanished("pointers into different objects compared in %s" % s.f.base)
            x, y, w, ptr = a[2], b[2], 64, True
        elif a[0] == "i" and b[0] == "i": x, y, w, ptr = a[2], b[2], a[1], False
        elif a[0] == "w" or b[0] == "w": return ("b", ("data",))
        else: raise Vanished("comparison in %s" % s.f.base)
        if x.is_const() and y.is_const():
            p1, q1 = (x.c, y.c) if p in ("eq", "ne") or p[0] == "s" or ptr else (s.uns(x.c, w), s.uns(y.c, w))
            return ("b", {"eq": p1 == q1, "ne": p1 != q1, "lt": p1 < q1, "le": p1 <= q1, "gt": p1 > q1, "ge": p1 >= q1}[p if p in ("eq", "ne") else p[1:]])
        if p[0] == "u" and not ptr and not (st.cons.entails(x) and st.cons.entails(y)): raise Vanished("unsigned comparison of a possibly wrapped value in %s" % s.f.base)
        q = p if p in ("eq", "ne") else p[1:]; d = x - y
        if q in ("eq", "ne"):
            e = st.cons.entails(d) and st.cons.entails(-d)
            if e: return ("b", q == "eq")
            if st.cons.entails(d - 1) or st.cons.entails(-d - 1): return ("b", q == "ne")
            return ("b", (q, d))
        if q in ("gt", "le"): d = -d; q = {"gt": "lt", "le": "ge"}[q]        # d < 0 or d >= 0
        if st.cons.entails(d): return ("b", q == "ge")
        if st.cons.entails(-d - 1): return ("b", q == "lt")
        return ("b", (q, d))
    def branch(s, st, c):
        """-> [(state, bool)]"""
        t = s.truth(c)
        if t is not None: return [(st, t)]
        if c[1][0] == "data": return [(st, True), (st.copy(), False)]      # either way
        q, d = c[1]; out = []
        def add(val, es):
            n = st.copy()
            for e in es: n.cons.add(e)
            if n.cons.feasible(): out.append((n, val))
        if q == "lt": add(True, [-d - 1]); add(False, [d])
        elif q == "ge": add(True, [d]); add(False, [-d - 1])
        else:
            add(q == "eq", [d, -d]); add(q == "ne", [d - 1]); add(q == "ne", [-d - 1])
        return out
    # ---- memory
    def isstream(s, b): return s.stream is not None and b in s.stream.values()
    def extent(s, st, b, off, n, I, what):
        sz = s.blocks.get(b)
        if sz is None: raise Vanished("object %s in %s" % (b, s.f.base))
        return s.oblige(st, st.cons.entails(off) and st.cons.entails(sz - off - n), "accesses stay inside the objects given", I, "%s of %d byte%s of %s" % (what, n, "s" * (n > 1), b.strip("@").split(":")[0]))
    def rel(s, st, off, I, what):
        r = off - st.base
        if not r.is_const():
            s.bad(st, "block positions advance together", I, "%s at %s while the block at %s is processed" % (what, off, st.base)); raise Stop()
        return r.c
    def ld(s, st, v, n, I):
        if v[0] == "t": return s.lookup(st, v, n, I)
        if v[0] != "p": raise Vanished("load address in %s" % s.f.base)
        b, off = v[1], v[2]
        if b is None: s.bad(st, "accesses stay inside the objects given", I, "null pointer read"); raise Stop()
        if b[0] == "@":
            raw = s.T.raw(b[1:])
            if raw is None: raise Vanished("global %s in %s" % (b, s.f.base))
            if b not in s.blocks: s.blocks[b] = Lin(len(raw)); s.consts.add(b)
            if not s.extent(st, b, off, n, I, "read"): raise Stop()
            return [(raw[off.c + k], ()) for k in range(n)]
        if not s.extent(st, b, off, n, I, "read"): raise Stop()
        if s.isstream(b):
            r = s.rel(st, off, I, "read"); o = []
            for k in range(r, r + n):
                if k in st.cur and b == s.stream["out"]: o.append(st.cur[k][0])
                elif 0 <= k < 16: o.append(atom("P", st.it, k) if b == s.stream["in"] else atom("old", k))
                elif -16 <= k < 0:
                    src = st.prevout if b == s.stream["out"] else st.previn
                    o.append(src[k + 16] if src else atom("before", k))
                else: o.append(atom("far", k))
            return o
        if not off.is_const(): raise Vanished("address of %s in %s" % (b, s.f.base))
        m = st.mem.get(b, {}); o = []
        for k in range(off.c, off.c + n):
            t = m.get(k)
            if t is None: t = atom("uninitialised", b, k)
            o.append(t)
        return o
    def sto(s, st, v, by, I):
        if v[0] != "p": raise Vanished("store address in %s" % s.f.base)
        b, off = v[1], v[2]
        if b is None: s.bad(st, "accesses stay inside the objects given", I, "null pointer written"); raise Stop()
        if b[0] == "@" or b in s.consts:
            s.bad(st, "inputs, keys and default vector are left unchanged", I, "write to %s" % b.strip("@")); raise Stop()
        if not s.extent(st, b, off, len(by), I, "write"): raise Stop()
        if s.isstream(b):
            r = s.rel(st, off, I, "write")
            for k, t in enumerate(by):
                if not 0 <= r + k < 16: s.bad(st, "block positions advance together", I, "write at %d relative to the block that is processed" % (r + k)); raise Stop()
                st.cur[r + k] = (t, I)
            return
        if not off.is_const(): raise Vanished("address of %s in %s" % (b, s.f.base))
        m = st.mem.setdefault(b, {})
        for k, t in enumerate(by): m[off.c + k] = t; s.stores[(b, off.c + k)] = I
    def lookup(s, st, v, n, I):
        g, x, stride, off = v[1], v[2], v[3], v[4]
        raw = s.T.raw(g); o = []
        s.oblige(st, len(raw) >= 256 * stride and 0 <= off and off + n <= stride, "accesses stay inside the objects given", I, "every index into %s" % g.split("L")[-1])
        if len(raw) < 256 * stride or off < 0 or off + n > stride: raise Stop()
        s.lookups[I.i] = s.lookups.get(I.i, 0) + 1
        for k in range(n):
            c = s.T.column(g, off + k, stride)
            s.T.used.setdefault((g, off + k, stride), I)
            if c is None: t = atom("t", g, off + k, x)
            else: t = bx(bm(fn(c[0], x), c[1]), (c[2], ()))
            for i, _ in t[1]:
                if ATOML[i][0] in ("f", "t"): ALOC.setdefault(i, I.where())
            o.append(t)
        return o
    # ---- instructions
    def step(s, st, I):
        op = I.op
        if op == "alloca":
            b = "%s:%d" % (I.j.get("name") or "tmp", I.i); s.blocks[b] = Lin(I.j["size"]); st.env[I.i] = ("p", b, Lin(0)); return
        if op == "getelementptr":
            v = s.ev(st, I.o[0])
            for q in I.j["steps"]:
                if q[0] == "f": v = s.off(v, Lin(q[3])); continue
                x = s.ev(st, q[1])
                if x[0] == "i": v = s.off(v, x[2] * q[2])
                elif x[0] == "w":
                    by = x[1]
                    if v[0] != "p" or v[1] is None or v[1][0] != "@" or not v[2].is_const() or not all(y == ZERO for y in by[1:]): raise Vanished("data used as an address in %s" % s.f.base)
                    if s.T.raw(v[1][1:]) is None: raise Vanished("table %s" % v[1])
                    v = ("t", v[1][1:], by[0], q[2], v[2].c)
                else: raise Vanished("address in %s" % s.f.base)
            st.env[I.i] = v; return
        if op == "load":
            n = s.width(I.ty) // 8 if I.ty != "ptr" else 8
            by = s.ld(st, s.ev(st, I.o[0]), n, I)
            if I.ty == "ptr":
                if len(by) == 8 and all(const(b) or ATOML[b[1][0][0]][0] == "ptr" for b in by) and len(by[0][1]) == 1: st.env[I.i] = ATOML[by[0][1][0][0]][1]; return
                raise Vanished("pointer read from memory in %s" % s.f.base)
            if s.width(I.ty) < 8: raise Vanished("type in %s" % s.f.base)
            if len(by[0][1]) == 1 and ATOML[by[0][1][0][0]][0] == "ptr":
                v = ATOML[by[0][1][0][0]][1]; st.env[I.i] = v; return
            st.env[I.i] = s.pack(by); return
        if op == "store":
            v = s.ev(st, I.o[0]); n = 8 if I.j["vty"] == "ptr" else s.width(I.j["vty"]) // 8
            if v[0] in ("p", "t") or v[0] == "i" and not v[2].is_const(): by = [atom("ptr", v, k) for k in range(n)]
            elif v[0] == "u": by = [atom("undef")] * n
            else: by = s.tobytes(v)[:n]
            s.sto(st, s.ev(st, I.o[1]), by, I); return
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"): st.env[I.i] = s.arith(st, I); return
        if op == "icmp": st.env[I.i] = s.cmp(st, I); return
        if op in ("zext", "sext", "trunc"):
            v = s.ev(st, I.o[0]); w = s.width(I.ty)
            if v[0] == "b":
                t = s.truth(v)
                if t is None: st.env[I.i] = v; return
                st.env[I.i] = ("i", w, Lin((1 if op == "zext" else -1) if t else 0)); return
            if v[0] == "i":
                x = v[2]
                if x.is_const():
                    c = x.c
                    if op == "zext": c = s.uns(c, v[1])
                    st.env[I.i] = ("i", w, Lin(s.wrap(c, w))); return
                if op == "trunc": s.oblige(st, st.cons.entails(x) and st.cons.entails(-x + (1 << (w - 1)) - 1), "every length is handled", I, "a quantity that grows with the length is kept in %d bits" % w)
                st.env[I.i] = ("i", w, x); return
            if v[0] == "w":
                n = w // 8; by = list(v[1])
                if op == "trunc" and w < 8: raise Vanished("bits of data in %s" % s.f.base)
                if op == "trunc": by = by[:n]
                elif op == "zext": by = by + [ZERO] * (n - len(by))
                else: raise Vanished("sign extension of data in %s" % s.f.base)
                st.env[I.i] = s.pack(by); return
            raise Vanished("conversion in %s" % s.f.base)
        if op in ("freeze", "bitcast"): st.env[I.i] = s.ev(st, I.o[0]); return
        if op in ("ptrtoint",):
            v = s.ev(st, I.o[0])
            if v[0] == "p": st.env[I.i] = v; return
            raise Vanished("pointer arithmetic in %s" % s.f.base)
        if op == "call":
            c = I.callee or ""
            if re.match(r"llvm\.(lifetime|dbg|assume|donothing|experimental\.noalias)", c) or c.startswith("llvm.assume"): return
            if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove") or c in ("memcpy", "memmove"):
                n = s.ev(st, I.o[2])
                if n[0] != "i" or not n[2].is_const(): raise Vanished("copy of variable length in %s" % s.f.base)
                if n[2].c:
                    d, r = s.ev(st, I.o[0]), s.ev(st, I.o[1])
                    if r[0] == "p" and r[1] is not None and r[1][0] == "@": s.ld(st, r, 1, I)
                    s.sto(st, d, s.ld(st, r, n[2].c, I), I)
                if c in ("memcpy", "memmove"): st.env[I.i] = s.ev(st, I.o[0])
                return
            if c.startswith("llvm.memset") or c == "memset":
                n = s.ev(st, I.o[2])
                if n[0] != "i" or not n[2].is_const(): raise Vanished("fill of variable length in %s" % s.f.base)
                b = s.tobytes(s.ev(st, I.o[1]))[0]
                if n[2].c: s.sto(st, s.ev(st, I.o[0]), [b] * n[2].c, I)
                if c == "memset": st.env[I.i] = s.ev(st, I.o[0])
                return
            if c.startswith("llvm.bswap"): st.env[I.i] = s.pack(s.tobytes(s.ev(st, I.o[0]))[::-1]); return
            if c.startswith("llvm.fshl") or c.startswith("llvm.fshr"):
                a, b, n = (s.ev(st, o) for o in I.o[:3]); A, B = s.tobytes(a), s.tobytes(b)
                if n[0] == "i" and n[2].is_const() and n[2].c % 8 == 0:
                    k = (n[2].c // 8) % len(A); X = B + A
                    st.env[I.i] = s.pack(X[len(A) - k:2 * len(A) - k] if c.startswith("llvm.fshl") else X[k:k + len(A)]); return
            if c == "__assert_fail": s.bad(st, "accesses stay inside the objects given", I, "an assertion fails"); raise Stop()
            raise Vanished("call of %s in %s" % (c, s.f.base))
        if op == "select":
            t = s.truth(s.ev(st, I.o[0]))
            if t is None: raise Vanished("choice that depends on the length in %s" % s.f.base)
            st.env[I.i] = s.ev(st, I.o[1 if t else 2]); return
        if op == "phi": return
        raise Vanished("%s in %s" % (op, s.f.base))
    def off(s, v, d):
        if v[0] == "p": return ("p", v[1], v[2] + d)
        if v[0] == "t" and d.is_const(): return v[:4] + (v[4] + d.c,)
        raise Vanished("address in %s" % s.f.base)
    # ---- the loop over the blocks
    def blockdone(s, st, I):
        """the block at base is complete: it must be what the mode prescribes"""
        if not st.cur: return
        exp = s.term(st)
        for k in range(16):
            got = st.cur.get(k)
            if got is None: s.bad(st, "every block is processed", I, "byte %d of a block is not written" % k); raise Stop()
            if got[0] != exp[k]:
                s.bad(st, "each block is chained as its mode prescribes", got[1], "output byte %d of %s block" % (k, "the first" if st.it == 0 else "a later")); raise Stop()
            s.obl.setdefault(("each block is chained as its mode prescribes", got[1].i, "output byte %d of %s block" % (k, "the first" if st.it == 0 else "a later")), True)
        pin = [atom("P", st.it, k) for k in range(16)]
        st.prevout = exp; st.previn = pin; st.prev = exp if s.mode == "enc" else pin
        st.base = st.base + 16; st.cur = {}
        if st.gen is None: st.it += 1
    def head(s, st, h, I):
        """arrival at the head of the block loop over a back edge; None when the induction closes"""
        b0 = st.base
        s.blockdone(st, I)
        if st.base == b0: s.bad(st, "every block is processed", I, "a pass of the loop writes no block"); raise Stop()
        S = ("in", "out")
        if st.gen is not None:
            k = st.gen; good = True
            for key, want in st.genmap.items():
                got = s.slot(st, key)
                if want[0] in ("same", "ptr"):
                    if want[0] == "ptr" and got is not None and len(got[1]) == 1 and ATOML[got[1][0][0]][0] == "ptr":
                        p, q = ATOML[got[1][0][0]], ATOML[want[1][1][0][0]]
                        if p[1][:2] == q[1][:2] and p[2] == q[2] and p[1][2] == q[1][2].subst(k, V(k) + 1): continue
                    elif want[0] == "same" and got == want[1]: continue
                    s.drop.add(key); raise Restart()
                if want[0] == "lin":
                    g = got[2] if got and got[0] in ("p", "i") else None
                    if g is None or g != want[1].subst(k, V(k) + 1): raise Vanished("the block loop of %s is not inductive" % s.f.base)
                elif want[0] == "byte" and got != st.prev[want[1]]: s.bad(st, "each block is chained as its mode prescribes", I, "the chaining value kept for the next block"); raise Stop()
                elif want[0] == "obyte" and got != st.prevout[want[1]]: raise Vanished("the block loop of %s is not inductive" % s.f.base)
            if st.strict and not st.cons.entails(s.blocks[s.stream["out"]] - st.base - 1): s.drop.add("strict"); raise Restart()
            s.oblige(st, st.cons.entails(s.blocks[s.stream["out"]] - st.base), "accesses stay inside the objects given", I, "the loop ends at the last block")
            return None
        st.visit += 1
        if st.visit <= s.UN:
            st.snap = (dict(st.env), {b: dict(m) for b, m in st.mem.items()}, st.prev, st.prevout); return st
        env0, mem0, prev0, po0 = st.snap
        st.strict = "strict" not in s.drop and st.cons.entails(s.blocks[s.stream["out"]] - st.base - 1)
        k = fresh("k"); K = V(k); st.cons.add(K); st.gen = k; gm = {}
        vals = [(("e", i), env0.get(i), v) for i, v in st.env.items()] + [(("m", b, o), mem0.get(b, {}).get(o), t) for b, m in st.mem.items() for o, t in m.items()]
        for key, a, v in vals:
            if key in s.drop:
                if key[0] == "e": st.env.pop(key[1])
                else: st.mem[key[1]][key[2]] = atom("stale", key[1], key[2])
                continue
            if a == v: gm[key] = ("same", v); continue
            new = None
            if key[0] == "e":
                if a is None: new = None
                elif a[0] == v[0] == "i" or a[0] == v[0] == "p" and a[1] == v[1]:
                    d = v[2] - a[2]
                    if d.is_const(): x = v[2] + K * d.c; new = v[:2] + (x,); gm[key] = ("lin", x)
                elif a[0] == v[0] == "w" and len(a[1]) == 1:
                    new = s.genbyte(st, prev0, po0, a[1][0], v[1][0], key, gm); new = ("w", (new,)) if new else None
                if new is None: st.env.pop(key[1]); continue
                st.env[key[1]] = new
            else:
                t = s.genbyte(st, prev0, po0, a, v, key, gm)
                if t is None and len(v[1]) == 1 and ATOML[v[1][0][0]][0] == "ptr" and a is not None and len(a[1]) == 1 and ATOML[a[1][0][0]][0] == "ptr":
                    p, q = ATOML[v[1][0][0]][1], ATOML[a[1][0][0]][1]
                    if p[0] == q[0] and p[1] == q[1] and (p[2] - q[2]).is_const(): t = atom("ptr", p[:2] + (p[2] + K * (p[2] - q[2]).c,), ATOML[v[1][0][0]][2]); gm[key] = ("ptr", t)
                if t is None: t = atom("stale", key[1], key[2])
                st.mem[key[1]][key[2]] = t
        st.base = st.base + 16 * K; st.prev = [atom("prev", j) for j in range(16)]
        st.prevout = st.prev if s.mode == "enc" else [atom("prevout", j) for j in range(16)]; st.previn = st.prev if s.mode == "dec" else [atom("previn", j) for j in range(16)]
        st.it = "n"; st.cons.add(s.blocks[s.stream["out"]] - st.base - int(st.strict)); st.genmap = gm
        return st
    def genbyte(s, st, prev0, po0, a, v, key, gm):
        for j in range(16):
            if st.prev[j] == v and prev0 and prev0[j] == a: gm[key] = ("byte", j); return atom("prev", j)
        for j in range(16):
            if st.prevout[j] == v and po0 and po0[j] == a: gm[key] = ("obyte", j); return atom("prevout", j)
        return None
    def slot(s, st, key):
        if key[0] == "e":
            v = st.env.get(key[1])
            return v[1][0] if v is not None and v[0] == "w" and s_is(st.genmap[key], "byte") else v
        return st.mem.get(key[1], {}).get(key[2])
    # ---- driver
    def run(s, st):
        if s.stream is not None and s.outer is None:
            # the loop whose exit depends on the length is the loop over the blocks
            pass
        work = [(0, None, st)]; f = s.f
        while work:
            b, pb, st = work.pop()
            s.steps += 1
            if s.steps > s.MAXSTEP: raise Vanished("%s exceeds the analysis bound" % f.base)
            st.path = (st.path, b) if s.stream is not None else (None, b)
            try:
                if pb is not None:
                    new = {}
                    for I in f.blocks[b]:
                        if I.op != "phi": break
                        for v, p in I.j["in"]:
                            if p == pb: new[I.i] = s.ev(st, v) if v[0] != "u" else ("u",); break
                    st.env.update(new)
                if s.outer is not None and b == s.outer:
                    if pb in f.loops[b]:
                        st = s.head(st, b, f.blocks[b][-1])
                        if st is None: continue
                    elif st.visit == 0: st.snap = (dict(st.env), {q: dict(m) for q, m in st.mem.items()}, st.prev, st.prevout)
                for I in f.blocks[b][:-1]: s.step(st, I)
                T = f.blocks[b][-1]
                if T.op == "ret": s.rets.append((st, T))
                elif T.op == "br":
                    if len(T.j["t"]) == 1: work.append((T.j["t"][0], b, st)); continue
                    c = s.ev(st, T.o[0])
                    if s.truth(c) is None and c[0] == "b" and c[1][0] != "data" and s.stream is not None:
                        hs = sorted((h for h in f.loops if b in f.loops[h]), key=lambda h: len(f.loops[h]))
                        if hs:
                            if s.outer is None: s.outer = hs[0]; raise Restart()
                            if s.outer not in hs: raise Vanished("a second loop over the blocks in %s" % f.base)
                    for n, val in s.branch(st, c): work.append((T.j["t"][0] if val else T.j["t"][1], b, n))
                elif T.op == "switch":
                    v = s.ev(st, T.o[0])
                    if v[0] != "i" or not v[2].is_const(): raise Vanished("switch in %s" % f.base)
                    work.append((next((t for k, t in T.j["cases"] if k == v[2].c), T.j["def"]), b, st))
                elif T.op == "call":
                    s.step(st, T)
                elif T.op == "unreachable": pass
                else: raise Vanished("terminator %s in %s" % (T.op, f.base))
            except Stop: pass
        return s
def s_is(x, k): return x[0] == k
class Restart(Exception): pass
def analyse(mk, init):
    """mk() -> Bytes, init(E) -> St ; the loop over the blocks is the one whose exit depends on the length, found on the first pass"""
    outer = None; drop = set()
    for _ in range(40):
        E = mk(); E.outer = outer; E.drop = drop
        try: E.run(init(E)); return E
        except Restart: outer = E.outer
    raise Vanished("no invariant for the block loop")
def parts(P):
    c = P.one("cyclone::Rijndael::Rijndael", 2); e = P.one("cyclone::Rijndael::encrypt", 5); d = P.one("cyclone::Rijndael::decrypt", 5)
    t = P.types.get("cyclone::Rijndael")
    if not t: raise Vanished("layout of Rijndael")
    return c, e, d, max(f[0] + f[1] for f in t)
def args(st, this, inp, out, size, iv):
    P = lambda b: ("p", b, Lin(0))
    for n, v in enumerate((P(this), P(inp), P(out), ("i", 64, size), P(iv))): st.env[("a", n)] = v
def oneblock(f, T, report, objsize, obj, x, v, inplace=False):
    """the function applied to one block x with vector v -> (run, its output bytes)"""
    def mk(): return Bytes(f, T, report, {"this": Lin(objsize), "in": Lin(16), "out": Lin(16), "iv": Lin(16)}, consts=("this",) if inplace else ("this", "in"))
    def init(E):
        st = St(); io = "out" if inplace else "in"
        st.mem = {"this": dict(obj), io: dict(enumerate(x)), "iv": dict(enumerate(v))}
        args(st, "this", io, "out", Lin(16), "iv"); return st
    E = analyse(mk, init)
    return E, [[st.mem.get("out", {}).get(j) for j in range(16)] for st, _ in E.rets]
