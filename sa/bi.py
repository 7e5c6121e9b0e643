"""Byte interpreter: runs a function and everything it calls over symbolic bytes, one abstract state per path.
A byte is a number, a symbol or undefined (never written); a pointer is a block and an offset; decisions on symbols fork and are remembered.
System calls are given by their contract: every outcome the contract allows is explored."""
import re
from core import Vanished

SWAP = re.compile(r"^(htons|ntohs|htonl|ntohl|__bswap_16|__bswap_32|llvm\.bswap\..*)$")
class Stop(Exception): pass
class Fork(Exception):
    def __init__(s, alts): s.alts = alts

def sw(ty): return 64 if ty == "ptr" else int(ty[1:]) if re.match(r"i\d+$", ty) else None
def isc(b): return isinstance(b, int)
def cint(v):
    if v[0] == "I" and all(isc(b) for b in v[2]): return sum(b << (8 * i) for i, b in enumerate(v[2])) & ((1 << v[1]) - 1)
    if v[0] == "B" and isinstance(v[1], bool): return int(v[1])
    return None
def mk(c, w):
    if w == 1: return ("B", bool(c & 1))
    c &= (1 << w) - 1
    return ("I", w, tuple((c >> (8 * i)) & 255 for i in range((w + 7) // 8)))
def sym(name, w):
    if w == 1: return ("B", ("s", name))
    return ("I", w, tuple(("s", name, i) for i in range((w + 7) // 8)))
def signed(c, w): return c - (1 << w) if c >> (w - 1) & 1 else c
def bts(v):
    if v[0] == "I": return v[2]
    if v[0] == "P": return tuple(("ptr", v, i) for i in range(8))
    if v[0] == "B": return (int(v[1]),) if isinstance(v[1], bool) else (("bool", v[1]),)
    return (None,)
def frombytes(by, ty):
    if ty == "ptr":
        if len(by) == 8 and by[0].__class__ is tuple and by[0][0] == "ptr" and all(b == ("ptr", by[0][1], i) for i, b in enumerate(by)): return by[0][1]
        if all(b == 0 for b in by): return ("P", None, 0)
        return ("P", ("at",) + tuple(by[:1]), 0)
    w = sw(ty)
    if w == 1:
        b = by[0]
        if isc(b): return ("B", bool(b & 1))
        if b.__class__ is tuple and b[0] == "bool": return ("B", b[1])
        return ("B", ("nz", b))
    return ("I", w, tuple(by))

class S:
    """one path"""
    __slots__ = ("mem", "size", "pc", "stack", "n", "path", "g")
    def copy(s):
        c = S(); c.mem = {b: dict(m) for b, m in s.mem.items()}; c.size = dict(s.size); c.pc = dict(s.pc); c.n = s.n; c.path = s.path; c.g = dict(s.g)
        c.stack = [[f[0], f[1], f[2], f[3], dict(f[4]), f[5]] for f in s.stack]     # fn, block, index, previous block, env, call instruction
        return c

class BI:
    MAXSTEP = 400000; DEPTH = 24
    def __init__(s, P, report, models=(), onexit=None):
        s.P = P; s.report_ = report; s.models = list(models); s.steps = 0; s.fns = set(); s.obl = {}; s.calls = {}; s.rets = []
        s.by = {}
    def fresh(s, st, tag): st.n += 1; return (tag, st.n)
    def bad(s, st, rule, I, detail):
        tr = []; p = st.path
        while p and len(tr) < 40: tr.append(p[1]); p = p[0]
        s.report_(rule, I.where() if I is not None else "?", detail, tr[::-1])
    def oblige(s, st, good, rule, I, detail):
        k = (rule, I.where() if I is not None else "?", detail); s.obl[k] = s.obl.get(k, True) and bool(good)
        if not good: s.bad(st, rule, I, detail)
        return good
    # --- memory
    def block(s, st, name, size, init=None):
        st.mem[name] = dict(init or {}); st.size[name] = size; return ("P", name, 0)
    def ld(s, st, p, n, I, strict=True):
        b, o = p[1], p[2]
        if b is None: raise Stop()
        if b not in st.mem:
            if o is None: return [s.fresh(st, "mem")] * n
            st.mem[b] = {}; st.size[b] = None          # memory this analysis knows nothing about
        if o is None: return [("any", b)] * n
        z = st.size[b]
        if z is not None and (o < 0 or o + n > z):
            s.oblige(st, False, "accesses stay inside the object", I, "%d byte(s) at %d of %d" % (n, o, z)); raise Stop()
        out = []
        for k in range(o, o + n):
            if k in st.mem[b]: out.append(st.mem[b][k])
            elif z is None: st.mem[b][k] = ("in", b, k); out.append(st.mem[b][k])
            else: out.append(None)
        return out
    def sto(s, st, p, by, I):
        b, o = p[1], p[2]
        if b is None: raise Stop()
        if b not in st.mem: st.mem[b] = {}; st.size[b] = None
        if o is None:
            for k in list(st.mem[b]): st.mem[b][k] = s.fresh(st, "mem")
            return
        z = st.size[b]
        if z is not None and (o < 0 or o + len(by) > z):
            s.oblige(st, False, "accesses stay inside the object", I, "%d byte(s) at %d of %d" % (len(by), o, z)); raise Stop()
        for k, x in enumerate(by): st.mem[b][o + k] = x
    # --- values
    def ev(s, st, o, env):
        k = o[0]
        if k == "c": return mk(o[1], o[2])
        if k == "v": return env[o[1]]
        if k == "a": return env[("a", o[1])]
        if k in ("n", "z") and (k == "n" or o[1] == "ptr"): return ("P", None, 0)
        if k == "g": return ("P", "@" + o[1], 0)
        if k == "ge":
            b = s.ev(st, o[1], env); return ("P", b[1], None if b[2] is None else b[2] + o[2])
        if k in ("f",): return ("P", "@" + str(o[1]), 0)
        return ("U",)
    def choose(s, st, t):
        """truth of a boolean term on this path; forks when open"""
        if isinstance(t, bool): return t
        neg = False
        while t[0] == "not": t = t[1]; neg = not neg
        if t not in st.pc: raise Fork([(t, True), (t, False)])
        return st.pc[t] != neg
    def cmp(s, st, I, env):
        a, b = s.ev(st, I.o[0], env), s.ev(st, I.o[1], env); p = I.j.get("p") or I.j.get("t")
        x, y = cint(a), cint(b)
        if x is not None and y is not None and a[0] == b[0]:
            w = a[1] if a[0] == "I" else 1; sx, sy = signed(x, w), signed(y, w)
            return ("B", {"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y, "slt": sx < sy, "sle": sx <= sy, "sgt": sx > sy, "sge": sx >= sy}[p])
        if a[0] == "P" and b[0] == "P":
            if a[1] == b[1] and a[2] is not None and b[2] is not None:
                x, y = a[2], b[2]; return ("B", {"eq": x == y, "ne": x != y}.get(p, x < y if "lt" in p else x <= y if "le" in p else x > y if "gt" in p else x >= y))
            if p in ("eq", "ne") and (a[1] is None or b[1] is None):
                o = a if b[1] is None else b
                if o[1] in st.size and st.size[o[1]] is not None: return ("B", p == "ne")
                t = ("null", o[1]); return ("B", t if p == "eq" else ("not", t))
        if a[0] == "B" and b[0] == "B" and p in ("eq", "ne"):
            for u, v in ((a, b), (b, a)):
                if isinstance(v[1], bool): return ("B", u[1] if v[1] == (p == "eq") else (not u[1] if isinstance(u[1], bool) else ("not", u[1])))
        if p in ("ne", "uge", "sge", "sgt", "ugt") and a != b:
            q = {"ne": "eq", "uge": "ult", "sge": "slt", "sgt": "sle", "ugt": "ule"}[p]; return ("B", ("not", ("cmp", q, a, b)))
        if a == b: return ("B", p in ("eq", "ule", "uge", "sle", "sge"))
        return ("B", ("cmp", p, a, b))
    def arith(s, st, I, env):
        a, b = s.ev(st, I.o[0], env), s.ev(st, I.o[1], env); op = I.op; w = sw(I.ty)
        x, y = cint(a), cint(b)
        if w is None: return sym(s.fresh(st, "u"), 64)
        if x is not None and y is not None:
            sx, sy = signed(x, w), signed(y, w)
            if op in ("udiv", "urem", "sdiv", "srem") and y == 0: raise Stop()
            q = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: x >> y,
                 "ashr": lambda: sx >> y, "udiv": lambda: x // y, "urem": lambda: x % y, "sdiv": lambda: int(sx / sy), "srem": lambda: sx - sy * int(sx / sy)}[op]()
            return mk(q, w)
        if w == 1:
            if op == "xor" and b == ("B", True): return ("B", ("not", a[1]))
            return ("B", (op, a, b))
        if a[0] == "I" and b[0] == "I":
            n = len(a[2])
            if op in ("shl", "lshr") and y is not None and y % 8 == 0:
                k = y // 8; z = (0,) * k
                return ("I", w, (z + a[2])[:n] if op == "shl" else a[2][k:] + z)
            if op in ("and", "or", "xor"):
                r = []
                for p, q in zip(a[2], b[2]):
                    if isc(p) and isc(q): r.append(p & q if op == "and" else p | q if op == "or" else p ^ q)
                    elif op == "and" and (p == 0 or q == 0): r.append(0)
                    elif op == "and" and 255 in (p, q): r.append(q if p == 255 else p)
                    elif op != "and" and 0 in (p, q): r.append(q if p == 0 else p)
                    else: r.append((op, p, q) if str(p) < str(q) else (op, q, p))
                return ("I", w, tuple(r))
            if op in ("add",) and all(0 in (p, q) for p, q in zip(a[2], b[2])): return ("I", w, tuple(q if p == 0 else p for p, q in zip(a[2], b[2])))
        if None in bts(a) or None in bts(b): return ("I", w, (None,) * ((w + 7) // 8))
        t = (op, a, b); return ("I", w, tuple(("op", t, i) for i in range((w + 7) // 8)))
    # --- one instruction; pushes results into env, may raise Fork with alternatives of decisions
    def simple(s, st, I, env):
        op = I.op
        if op == "alloca":
            b = ("loc", I.fn.name, I.i, len(st.stack)); s.block(st, b, I.j["size"]); env[I.i] = ("P", b, 0); return
        if op == "getelementptr":
            v = s.ev(st, I.o[0], env); o = v[2]
            for q in I.j["steps"]:
                if q[0] == "f": o = None if o is None else o + q[3]; continue
                x = s.ev(st, q[1], env); c = cint(x)
                if c is None: v = ("P", ("idx", v, x, q[2]), 0); o = 0
                elif o is not None: o += signed(c, x[1] if x[0] == "I" else 1) * q[2]
            env[I.i] = ("P", v[1], o); return
        if op == "load":
            n = 8 if I.ty == "ptr" else ((sw(I.ty) or 64) + 7) // 8
            env[I.i] = frombytes(s.ld(st, s.ev(st, I.o[0], env), n, I), I.ty) if sw(I.ty) else ("U",); return
        if op == "store":
            v = s.ev(st, I.o[0], env); n = 8 if I.j["vty"] == "ptr" else ((sw(I.j["vty"]) or 64) + 7) // 8
            by = list(bts(v)); by = (by + [None] * n)[:n] if v[0] != "U" else [None] * n
            s.sto(st, s.ev(st, I.o[1], env), by, I); return
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"): env[I.i] = s.arith(st, I, env); return
        if op == "icmp": env[I.i] = s.cmp(st, I, env); return
        if op in ("zext", "sext", "trunc"):
            v = s.ev(st, I.o[0], env); w = sw(I.ty); n = (w + 7) // 8; c = cint(v)
            if c is not None:
                if op == "sext": c = signed(c, v[1] if v[0] == "I" else 1)
                env[I.i] = mk(c, w); return
            if v[0] == "B":
                if op == "zext": env[I.i] = ("I", w, (("bool", v[1]),) + (0,) * (n - 1))
                else: env[I.i] = ("I", w, tuple(("sbool", v[1]) for _ in range(n)))
                return
            if v[0] != "I": env[I.i] = ("U",); return
            if op == "trunc": env[I.i] = frombytes(v[2][:n], I.ty)
            elif op == "zext": env[I.i] = ("I", w, v[2] + (0,) * (n - len(v[2])))
            else: env[I.i] = ("I", w, v[2] + tuple(("sign", v[2][-1]) for _ in range(n - len(v[2]))))
            return
        if op in ("freeze", "bitcast", "ptrtoint", "inttoptr"): env[I.i] = s.ev(st, I.o[0], env); return
        if op == "select":
            c = s.ev(st, I.o[0], env); t = s.choose(st, c[1] if c[0] == "B" else ("sel", str(c)))
            env[I.i] = s.ev(st, I.o[1 if t else 2], env); return
        if op in ("phi", "landingpad", "fence"): env.setdefault(I.i, ("U",)); return
        env[I.i] = ("U",) if sw(I.ty) is None else sym(s.fresh(st, op), sw(I.ty))
    def result(s, st, ty):
        if ty == "void": return ("U",)
        if ty == "ptr": return ("P", s.fresh(st, "ret"), 0)
        return sym(s.fresh(st, "ret"), sw(ty)) if sw(ty) else ("U",)
    def call(s, st, I, env):
        """None: entered the callee; otherwise the value returned"""
        c = I.j.get("fn") or ""; base = (I.callee or "") if c else ""; args = [s.ev(st, o, env) for o in I.o]
        for pat, f in s.models:
            if re.match(pat, base) or re.match(pat, c):
                s.calls[base] = s.calls.get(base, 0) + 1
                r = f(s, st, I, args)
                if r is not NotImplemented: return r
        if re.match(r"llvm\.(lifetime|dbg|assume|donothing|experimental|stack)", c): return ("U",)
        if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove") or c in ("memcpy", "memmove"):
            n = cint(args[2])
            if n is None: s.sto(st, ("P", args[0][1], None), [], I); return args[0]
            if n: s.sto(st, args[0], s.ld(st, args[1], n, I), I)
            return args[0]
        if c.startswith("llvm.memset") or c == "memset":
            n = cint(args[2])
            if n is None: s.sto(st, ("P", args[0][1], None), [], I); return args[0]
            if n: s.sto(st, args[0], [bts(args[1])[0]] * n, I)
            return args[0]
        if SWAP.match(c) or SWAP.match(base): return ("I", args[0][1], args[0][2][::-1]) if args[0][0] == "I" else args[0]
        if c.startswith("llvm.fshl") or c.startswith("llvm.fshr"):
            n = cint(args[2]); A, B = bts(args[0]), bts(args[1])
            if n is not None and n % 8 == 0:
                k = (n // 8) % len(A); X = tuple(B) + tuple(A)
                return ("I", args[0][1], X[len(A) - k:2 * len(A) - k] if c.startswith("llvm.fshl") else X[k:k + len(A)])
        if c == "__assert_fail": raise Stop()
        f = s.P.fns.get(c)
        if f is not None and f.blocks and len(st.stack) < s.DEPTH and sum(1 for fr in st.stack if fr[0] is f) < 2:
            s.fns.add(f.dem); e = {("a", k): v for k, v in enumerate(args)}
            st.stack[-1][5] = I; st.stack.append([f, 0, 0, None, e, None]); return None
        for a in args:       # unknown code may write what it can reach; what it writes is defined
            if a[0] == "P" and a[1] in st.mem and not (isinstance(a[1], str) and a[1].startswith("@")):
                z = st.size[a[1]]
                for k in (range(z) if z is not None and z <= 4096 else list(st.mem[a[1]])): st.mem[a[1]][k] = s.fresh(st, "ext")
        s.calls[base or "?"] = s.calls.get(base or "?", 0) + 1
        return s.result(st, I.ty)
    def state(s):
        st = S(); st.mem = {}; st.size = {}; st.pc = {}; st.stack = []; st.n = 0; st.path = None; st.g = {}; return st
    def run(s, st, f, args):
        """all final states: [(state, value)]"""
        s.fns.add(f.dem)
        st.stack = [[f, 0, 0, None, {("a", k): v for k, v in enumerate(args)}, None]]
        work = [st]; out = []
        while work:
            st = work.pop()
            try:
                while True:
                    s.steps += 1
                    if s.steps > s.MAXSTEP: raise Vanished("%s exceeds the analysis bound" % f.base)
                    fr = st.stack[-1]; fn, b, i, pb, env, _ = fr; I = fn.blocks[b][i]
                    save = None
                    try:
                        if i == 0 and pb is not None:
                            new = {}
                            for J in fn.blocks[b]:
                                if J.op != "phi": break
                                for v, q in J.j["in"]:
                                    if q == pb: new[J.i] = s.ev(st, v, env); break
                            env.update(new)
                        if I.op in ("call", "invoke"):
                            save = st.copy()
                            r = s.call(st, I, env)
                            if r is None: continue
                            if r.__class__ is list:      # several outcomes: (state, value) or (effect, value)
                                for st2, v in r:
                                    s.finish(st2, I, v); work.append(st2)
                                break
                            s.finish(st, I, r); continue
                        if I.op == "br":
                            T = I.j["t"]
                            if len(T) == 1: fr[1], fr[2], fr[3] = T[0], 0, b; continue
                            c = s.ev(st, I.o[0], env); t = s.choose(st, c[1] if c[0] == "B" else ("br", str(c)))
                            st.path = (st.path, "%s %s" % (I.where(), "taken" if t else "not taken"))
                            fr[1], fr[2], fr[3] = T[0 if t else 1], 0, b; continue
                        if I.op == "switch":
                            v = s.ev(st, I.o[0], env); c = cint(v)
                            if c is None:
                                for t in list(dict.fromkeys([t for k, t in I.j["cases"]] + [I.j["def"]])):
                                    st2 = st.copy(); g = st2.stack[-1]; g[1], g[2], g[3] = t, 0, b; work.append(st2)
                                break
                            fr[1], fr[2], fr[3] = next((t for k, t in I.j["cases"] if k & ((1 << v[1]) - 1) == c), I.j["def"]), 0, b; continue
                        if I.op == "ret":
                            v = s.ev(st, I.o[0], env) if I.o else ("U",)
                            if len(st.stack) == 1: out.append((st, v)); break
                            st.stack.pop(); fr = st.stack[-1]; J = fr[5]; fr[5] = None; s.finish(st, J, v); continue
                        if I.op in ("unreachable", "resume"): break
                        s.simple(st, I, env); fr[2] += 1
                    except Fork as x:
                        base_ = save or st
                        for t, val in x.alts:
                            st2 = base_.copy(); st2.pc[t] = val; work.append(st2)
                        break
            except Stop: pass
        return out
    def finish(s, st, I, v):
        fr = st.stack[-1]; fr[4][I.i] = v
        if I.op == "invoke": fr[3] = fr[1]; fr[1], fr[2] = I.j["t"][0], 0
        else: fr[2] += 1
