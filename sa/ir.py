"""In-memory form of a normalised module + path-sensitive dataflow engine.

The engine is a forward dataflow analysis over (program point, abstract state)
pairs: an abstract state is a rule-specific typestate plus a finite map of
facts about branch conditions (property simulation, ESP style).  Equal states
are merged, so loops reach a fixpoint; no program code is run."""
import re, functools, sys

sys.setrecursionlimit(20000)

def base_name(d):
    """demangled signature -> qualified name without parameters/return type/template args kept."""
    # cut the parameter list: first '(' at angle depth 0 that is not part of operator()
    depth = 0
    i = 0
    n = len(d)
    end = n
    while i < n:
        c = d[i]
        if d.startswith("operator", i) and (i == 0 or not (d[i-1].isalnum() or d[i-1] == "_")):
            j = i + 8
            m = re.match(r"\(\)|<<=?|>>=?|<=>|<=|>=|->\*?|<|>", d[j:])
            if m:
                i = j + len(m.group(0)); continue
        if c == "<": depth += 1
        elif c == ">": depth -= 1
        elif c == "(" and depth == 0:
            if d.startswith("(anonymous namespace)", i):
                i += len("(anonymous namespace)"); continue
            # lambda scope:  foo(int)::$_0::operator()(..) const -> keep as is
            k = i; dd = 0
            while k < n:
                if d[k] == "(": dd += 1
                elif d[k] == ")":
                    dd -= 1
                    if dd == 0: break
                k += 1
            rest = d[k+1:]
            if rest.startswith("::") or rest.startswith(" const::"):
                i = k + 1; continue
            end = i
            break
        i += 1
    s = d[:end]
    # strip return type (templates)
    depth = 0; cut = 0
    for i, c in enumerate(s):
        if c in "<(": depth += 1
        elif c in ">)": depth -= 1
        elif c == " " and depth == 0 and not s[:i].endswith("operator") and not s[i+1:].startswith("const"):
            cut = i + 1
    return s[cut:]

class Ins:
    __slots__ = ("i", "op", "ty", "d", "o", "j", "blk", "fn", "callee", "cal_dem")
    def __init__(self, j, blk, fn):
        self.i = j["i"]; self.op = j["op"]; self.ty = j["ty"]; self.d = j["d"]; self.o = j.get("o", []); self.j = j
        self.blk = blk; self.fn = fn; self.callee = None; self.cal_dem = None
    def line(self):
        return self.d[0][0] if self.d else 0
    def where(self):
        if not self.d: return "%s:?" % self.fn.file
        s = "%s:%d" % (self.d[0][1], self.d[0][0])
        if len(self.d) > 1:
            s += " (inlined into %s:%d)" % (self.d[-1][1], self.d[-1][0])
        return s

class Fn:
    def __init__(self, name, j, prog):
        self.name = name; self.dem = j["dem"]; self.base = base_name(self.dem); self.file = j["file"]; self.line = j["line"]
        self.ncall = j.get("ncall", 0); self.ntaken = j.get("ntaken", 0); self.cand = j.get("cand", False)
        self.args = j["args"]; self.ret = j["ret"]; self.refs = j["refs"]; self.prog = prog; self.j = j
        self.blocks = []
        self.ins = {}
        for b, bl in enumerate(j["blocks"]):
            L = []
            for x in bl:
                I = Ins(x, b, self)
                if I.op in ("call", "invoke"):
                    fn = x.get("fn")
                    if fn:
                        I.cal_dem = prog.dem(fn); I.callee = prog.base(fn)
                    else:
                        vc = x.get("vc")
                        if vc and len(vc[2]) == 1:
                            I.cal_dem = prog.dem(vc[2][0]); I.callee = prog.base(vc[2][0])
                        elif vc:
                            I.callee = "virtual:" + vc[0] + "+%d" % vc[1]; I.cal_dem = I.callee
                        else:
                            I.callee = "indirect"; I.cal_dem = "indirect"
                L.append(I); self.ins[I.i] = I
            self.blocks.append(L)
        self.succ = [[] for _ in self.blocks]; self.pred = [[] for _ in self.blocks]
        for b, L in enumerate(self.blocks):
            for s in self.term_succ(b):
                self.succ[b].append(s); self.pred[s].append(b)
    def term(self, b):
        return self.blocks[b][-1]
    def term_succ(self, b):
        t = self.blocks[b][-1]
        if t.op == "br": return list(dict.fromkeys(t.j["t"]))
        if t.op == "switch": return list(dict.fromkeys([c[1] for c in t.j["cases"]] + [t.j["def"]]))
        return []
    @functools.cached_property
    def reach(self):
        """blocks reachable from entry"""
        seen = {0}; w = [0]
        while w:
            b = w.pop()
            for s in self.succ[b]:
                if s not in seen: seen.add(s); w.append(s)
        return seen
    @functools.cached_property
    def idom_sets(self):
        n = len(self.blocks); R = self.reach
        dom = {b: set(R) for b in R}; dom[0] = {0}
        ch = True
        order = sorted(R)
        while ch:
            ch = False
            for b in order:
                if b == 0: continue
                ps = [dom[p] for p in self.pred[b] if p in R]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        return dom
    def dominates(self, A, B):
        """instruction A dominates instruction B"""
        if A.blk == B.blk:
            L = self.blocks[A.blk]; return L.index(A) < L.index(B)
        return A.blk in self.idom_sets.get(B.blk, ())
    @functools.cached_property
    def backedges(self):
        """edges (u,v) closing a cycle in a DFS"""
        color = {}; out = set()
        st = [(0, iter(self.succ[0]))]; color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if color.get(v, 0) == 0:
                    color[v] = 1; st.append((v, iter(self.succ[v]))); break
                elif color[v] == 1: out.add((u, v))
            else:
                color[u] = 2; st.pop()
        return out
    @functools.cached_property
    def loops(self):
        """header -> set of blocks (natural loops)"""
        out = {}
        for u, v in self.backedges:
            body = out.setdefault(v, {v})
            w = [u]
            while w:
                x = w.pop()
                if x in body: continue
                body.add(x); w.extend(p for p in self.pred[x] if p in self.reach)
        return out
    def calls(self, pat=None):
        for b in sorted(self.reach):
            for I in self.blocks[b]:
                if I.op == "call" and (pat is None or match(I, pat)):
                    yield I
    def all(self):
        for b in sorted(self.reach):
            for I in self.blocks[b]:
                yield I
    def short(self):
        return self.base.replace("cyclone::", "")

def match(I, pat):
    if I.callee is None: return False
    if isinstance(pat, str): return I.callee == pat
    if callable(pat): return pat(I)
    if hasattr(pat, "search"): return pat.search(I.callee) is not None
    return I.callee in pat

class Prog:
    def __init__(self, js, units=()):
        self.j = js; self.units = list(units)
        self._dem = {}
        for k, v in js["functions"].items(): self._dem[k] = v["dem"]
        for k, v in js["light"].items(): self._dem[k] = v["dem"]
        for k, v in js["decls"].items(): self._dem[k] = v["dem"]
        self._base = {}
        self.fns = {k: Fn(k, v, self) for k, v in js["functions"].items()}
        self._cg = {}
        self.light = js["light"]; self.globals = js["globals"]; self.types = js["types"]
        self.by_base = {}
        for f in self.fns.values(): self.by_base.setdefault(f.base, []).append(f)
    def constglob(self, g):
        """value of an integer constant with a known initialiser"""
        if g not in self._cg:
            G = self.globals.get(g) or {}; v = G.get("init"); r = None
            if G.get("const") and re.match(r"i\d+$", G.get("ty", "")) and isinstance(v, list) and v and v[0] == "c": r = ("const", v[1])
            elif G.get("const") and re.match(r"i\d+$", G.get("ty", "")) and isinstance(v, int): r = ("const", v)
            self._cg[g] = r
        return self._cg[g]
    def dem(self, m): return self._dem.get(m, m)
    def base(self, m):
        b = self._base.get(m)
        if b is None: b = self._base[m] = base_name(self.dem(m))
        return b
    def get(self, base, nargs=None):
        fs = self.by_base.get(base, [])
        if nargs is not None: fs = [f for f in fs if len(f.args) == nargs]
        if not fs: raise Vanished("function %s%s not found in the resolved program" % (base, "" if nargs is None else "/%d" % nargs))
        return fs
    def one(self, base, nargs=None):
        fs = self.get(base, nargs)
        # C1/C2 or D0/D1/D2 variants: take the base-object one
        if len(fs) > 1:
            pick = [f for f in fs if re.search(r"[CD]2E", f.name)]
            if len(pick) == 1: return pick[0]
            raise Vanished("%s is ambiguous: %s" % (base, [f.dem for f in fs]))
        return fs[0]
    def has(self, base): return base in self.by_base
    def roots(self):
        """functions analysed on their own: everything that is not a helper
        expanded into all of its callers"""
        out = []
        for f in self.fns.values():
            if f.cand and f.ncall > 0 and f.ntaken == 0: continue
            out.append(f)
        return sorted(out, key=lambda f: (f.file, f.line, f.name))
    def callgraph(self):
        """mangled -> set(mangled): calls + address-taken, through library glue too"""
        g = {}
        for k, f in self.fns.items():
            s = set(f.refs)
            for I in f.calls():
                vc = I.j.get("vc")
                if vc: s.update(vc[2])
            g[k] = s
        for k, v in self.light.items(): g[k] = set(v["refs"])
        return g

class Vanished(Exception):
    """an anchor is missing: the analysis is broken, no verdict"""

# ---------------------------------------------------------------- expressions
def is_const(e): return e[0] == "const"
NULL = ("const", 0)

def fmt(e):
    """readable access path"""
    k = e[0]
    if k == "arg": return "this" if e[1] == 0 and len(e) > 2 and e[2] == "this" else (e[2] if len(e) > 2 and e[2] else "arg%d" % e[1])
    if k == "const": return str(e[1])
    if k == "glob": return "@" + str(e[1])
    if k == "fld":
        return fmt(e[1]) + "." + e[2].split("::")[-1].split(".")[-1]
    if k == "idx": return fmt(e[1]) + "[%s]" % fmt(e[2])
    if k == "ld": return fmt(e[-1])
    if k == "alloca": return e[2] or "tmp%d" % e[1]
    if k == "call": return "%s()" % e[2].split("::")[-1]
    if k == "bin": return "(%s %s %s)" % (fmt(e[2]), e[1], fmt(e[3]))
    if k == "cmp": return "(%s %s %s)" % (fmt(e[2]), e[1], fmt(e[3]))
    if k == "cast": return fmt(e[2])
    if k == "phi": return "phi%d" % e[1]
    if k == "off": return "%s+%d" % (fmt(e[1]), e[2])
    return str(e)

def strip(e):
    """identity of an access path: load instances of the same path are equal"""
    k = e[0]
    if k == "ld": return ("ld", strip(e[2]))
    if k in ("fld",): return (k, strip(e[1]), e[2])
    if k == "idx": return (k, strip(e[1]), strip(e[2]))
    if k == "bin": return (k, e[1], strip(e[2]), strip(e[3]))
    if k == "cmp": return (k, e[1], strip(e[2]), strip(e[3]))
    if k == "cast": return (k, e[1], strip(e[2]))
    if k == "off": return (k, strip(e[1]), e[2])
    if k == "call": return (k, e[1], e[2], tuple(strip(a) for a in e[3]))
    return e

@functools.lru_cache(maxsize=200000)
def mentions(e, i):
    """does expression e mention the value of instruction i"""
    k = e[0]
    if k in ("ld", "call", "phi", "val"):
        if e[1] == i: return True
    for x in e[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                if mentions(x, i): return True
            else:
                for y in x:
                    if isinstance(y, tuple) and mentions(y, i): return True
    return False

def subexprs(e):
    yield e
    for x in e[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from subexprs(x)
            else:
                for y in x:
                    if isinstance(y, tuple): yield from subexprs(y)

def root(e):
    while e[0] in ("fld", "idx", "ld", "off", "cast"):
        e = e[-1] if e[0] in ("ld", "cast") else e[1]
    return e

def last_field(e):
    """name of the innermost field of an address/value path ('m_lock')"""
    while True:
        if e[0] == "fld": return e[2].split(".")[-1]
        if e[0] in ("idx", "off"): e = e[1]
        elif e[0] in ("ld", "cast"): e = e[-1]
        else: return None

NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
INF = float("inf")

class Facts:
    """value expr -> (lo, hi, excluded) with boolean conditions as values 0/1"""
    __slots__ = ("m",)
    def __init__(self, m=None): self.m = m or {}
    def copy(self): return Facts(dict(self.m))
    def get(self, e):
        if e[0] == "const": return (e[1], e[1], frozenset())
        return self.m.get(e, (-INF, INF, frozenset()))
    def assume(self, e, p, k):
        """e p k (const); returns False when contradictory"""
        if e[0] == "const":
            return cmpc(p, e[1], k)
        lo, hi, ex = self.get(e)
        if p == "eq": 
            if k < lo or k > hi or k in ex: return False
            lo = hi = k; ex = frozenset()
        elif p == "ne":
            if lo == hi == k: return False
            if k == lo: lo += 1
            elif k == hi: hi -= 1
            else: ex = ex | {k}
        elif p in ("slt",): hi = min(hi, k - 1)
        elif p in ("sle",): hi = min(hi, k)
        elif p in ("sgt",): lo = max(lo, k + 1)
        elif p in ("sge",): lo = max(lo, k)
        elif p == "ugt" and k >= 0:
            if k == 0: return self.assume(e, "ne", 0)
            if lo >= 0: lo = max(lo, k + 1)
        elif p == "uge" and k >= 0:
            if lo >= 0: lo = max(lo, k)
        elif p == "ult" and k >= 0: lo = max(lo, 0); hi = min(hi, k - 1)
        elif p == "ule" and k >= 0: lo = max(lo, 0); hi = min(hi, k)
        while lo in ex: lo += 1
        while hi in ex: hi -= 1
        if lo > hi: return False
        self.m[e] = (lo, hi, frozenset(x for x in ex if lo < x < hi))
        return True
    def key(self): return frozenset(self.m.items())

def cmpc(p, a, b):
    if p in ("ult", "ule", "ugt", "uge"):
        a &= (1 << 64) - 1; b &= (1 << 64) - 1
        p = "s" + p[1:]
    return {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[p]

class State:
    __slots__ = ("rs", "facts", "mem", "env")
    def __init__(self, rs, facts=None, mem=None, env=None):
        self.rs = rs; self.facts = facts or Facts(); self.mem = mem or {}; self.env = env or {}
    def copy(self): return State(self.rs, self.facts.copy(), dict(self.mem), dict(self.env))
    def key(self): return (self.rs, self.facts.key(), frozenset(self.mem.items()), frozenset(self.env.items()))

PURE = re.compile(r"^(cyclone::sys_api::(thread_get_current_id|thread_get_id|thread_yield|performance_time_now|utc_time_now|thread_get_current_name|process_get_id)$"
                  r"|cyclone::socket_api::(get_lasterror|is_lasterror_WOULDBLOCK|ntoh_16|ntoh_32|get_socket_error|close_socket|shutdown|set_\w+|setsockopt)$|cyclone::disk_log$|std::operator==|std::operator!=|__errno_location$|llvm\.)")

class Walker:
    """path-sensitive forward dataflow of one function.
    rule: object with init()->hashable, step(st, I, W)->None | list[State] (None: state updated in place),
          optional branch hook, exit(st, I, W)"""
    MAXSTATES = 60000
    def __init__(self, fn, rule, argfacts=(), pure=None, relevant=None, argconst=None, mem=None):
        self.argconst = argconst or {}; self.mem0 = mem or {}
        self.fn = fn; self.rule = rule; self.pure = pure or PURE; self.argfacts = argfacts
        self.visited = 0; self.edges = 0
        self.prov = {}
        self.relevant = relevant
        self._live = self._liveness()
        self._livemem = self._memlive()

    def _memlive(self):
        """field keys (last step of address) that are loaded at or after each block; 
        used to forget dead facts, which keeps the state space small"""
        fn = self.fn
        use = [set() for _ in fn.blocks]
        for b in fn.reach:
            for I in fn.blocks[b]:
                if I.op == "load":
                    use[b].add(self.addrkey_static(I.o[0]))
                elif I.op in ("call", "cmpxchg", "atomicrmw"):
                    use[b].add("*") if False else None
                    for o in I.o:
                        k = self.addrkey_static(o)
                        if k is not None: use[b].add(k)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in fn.reach:
                n = set(use[b])
                for s in fn.succ[b]: n |= live[s]
                if n != live[b]: live[b] = n; ch = True
        return live
    def addrkey_static(self, o):
        if o[0] == "v":
            I = self.fn.ins[o[1]]
            if I.op == "getelementptr":
                st = I.j.get("steps") or []
                if st and st[-1][0] == "f": return "f:" + st[-1][4]
                if st: return "x"
                return self.addrkey_static(I.o[0])
            if I.op == "alloca": return "al%d" % I.i
            return "p"
        if o[0] == "a": return "p"
        if o[0] == "g": return "g:" + o[1]
        return None
    def addrkey(self, a):
        if a[0] == "fld": return "f:" + a[2].split(".")[-1]
        if a[0] == "idx": return "x"
        if a[0] == "alloca": return "al%d" % a[1]
        if a[0] == "glob": return "g:" + str(a[1])
        return "p"

    def _liveness(self):
        fn = self.fn
        # values that feed others: expression evaluation is recursive, so close
        # over operand chains
        dep = {}
        def deps(i):
            if i in dep: return dep[i]
            dep[i] = set()
            I = fn.ins[i]
            s = set()
            ops = list(I.o)
            if I.op == "getelementptr":
                for st in I.j.get("steps", []):
                    if st[0] == "x": ops.append(st[1])
            for o in ops: self._uses(o, s)
            if I.op in ("load", "call", "alloca", "phi"): s = set()
            out = {i} | s
            for x in s: out |= deps(x)
            dep[i] = out
            return out
        use = [set() for _ in fn.blocks]; defs = [set() for _ in fn.blocks]; phis = [set() for _ in fn.blocks]; out = [set() for _ in fn.blocks]
        for b in fn.reach:
            for I in fn.blocks[b]:
                if I.op == "phi":
                    for v, p in I.j["in"]:
                        if v[0] == "v": out[p] |= deps(v[1])
                    phis[b].add(I.i)          # set on the edge, so alive at the start of the block
                else:
                    ops = list(I.o); x = set()
                    if I.op == "getelementptr":
                        for s in I.j.get("steps", []):
                            if s[0] == "x": ops.append(s[1])
                    if "fp" in I.j: ops.append(I.j["fp"])
                    for o in ops: self._uses(o, x)
                    for i in x: use[b] |= deps(i) - defs[b]
                    defs[b].add(I.i)
        for b in fn.reach: use[b] |= out[b] - defs[b]
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in fn.reach:
                n = set()
                for s in fn.succ[b]: n |= live[s] - phis[s]
                n = use[b] | (n - defs[b])
                if n != live[b]: live[b] = n; ch = True
        return live
    def _uses(self, o, acc):
        if o[0] == "v": acc.add(o[1])
        elif o[0] in ("e", "ge", "s"):
            for x in o[1:]:
                if isinstance(x, list): self._uses(x, acc)

    # ---- expression evaluation in a state
    def ev(self, st, o):
        k = o[0]
        if k == "c": 
            v = o[1]
            if o[2] == 1: v &= 1
            return ("const", v)
        if k == "n": return NULL
        if k == "a":
            if o[1] in self.argconst: return ("const", self.argconst[o[1]])
            return ("arg", o[1], self.fn.args[o[1]][0])
        if k == "g": return ("glob", o[1])
        if k == "v":
            e = st.env.get(o[1])
            if e is not None: return e
            return self.ev_ins(st, self.fn.ins[o[1]])
        if k == "ge": return ("off", self.ev(st, o[1]), o[2])
        if k == "z": return NULL
        if k == "e": return ("cexpr",) + tuple(self.ev(st, x) if isinstance(x, list) else ("s", x) for x in o[1:])
        return ("opaque", str(o))
    def ev_ins(self, st, I):
        op = I.op
        if op == "getelementptr":
            b = self.ev(st, I.o[0])
            for s in I.j.get("steps", []):
                if s[0] == "f":
                    if s[3] == 0 and (s[4].startswith("(base)")): continue
                    b = ("fld", b, s[1] + "." + s[4])
                else:
                    ix = self.ev(st, s[1])
                    if ix == ("const", 0): 
                        if len(s) > 3: b = ("idx", b, ix)
                        continue
                    b = ("idx", b, ix)
            return b
        if op == "alloca": return ("alloca", I.i, I.j.get("name", ""))
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            e = self.ev(st, I.o[0])
            if op == "trunc" and I.ty == "i1":
                pass
            if e[0] == "const":
                v = e[1]
                if op == "trunc":
                    w = int(I.ty[1:]); v &= (1 << w) - 1
                    if w > 1 and v >> (w - 1): v -= 1 << w
                elif op == "zext":
                    w = int(I.j["sty"][1:]); v &= (1 << w) - 1
                return ("const", v)
            return e
        if op == "icmp":
            a = self.ev(st, I.o[0]); b = self.ev(st, I.o[1]); p = I.j["p"]
            if a[0] == "const" and b[0] == "const": return ("const", int(cmpc(p, a[1], b[1])))
            if a[0] == "const": a, b, p = b, a, SWAP[p]
            return ("cmp", p, a, b)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a = self.ev(st, I.o[0]); b = self.ev(st, I.o[1])
            if a[0] == "const" and b[0] == "const":
                x, y = a[1], b[1]
                r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y}.get(op)
                if r: return ("const", r())
            if op == "xor" and I.ty == "i1" and b == ("const", 1) and a[0] == "cmp":
                return ("cmp", NEG[a[1]], a[2], a[3])
            if op in ("add", "or", "xor") and b == ("const", 0): return a
            if op == "sub" and b == ("const", 0): return a
            return ("bin", op, a, b)
        if op == "freeze": return self.ev(st, I.o[0])
        if op == "select":
            c = self.truth(st, self.ev(st, I.o[0]))
            if c is True: return self.ev(st, I.o[1])
            if c is False: return self.ev(st, I.o[2])
            return ("val", I.i)
        if op == "phi": return ("phi", I.i)
        if op == "load": return ("ld", I.i, self.ev(st, I.o[0]))
        if op == "call":
            return ("call", I.i, I.callee, tuple(self.ev(st, a) for a in I.o))
        if op == "extractvalue":
            a = self.ev(st, I.o[0]); return ("xv", a, tuple(I.j["ix"]))
        return ("val", I.i)

    # ---- truth of a boolean expression
    def truth(self, st, e):
        if e[0] == "const": return bool(e[1] & 1) if e[1] in (0, 1, -1) else bool(e[1])
        if e[0] == "cmp":
            p, a, b = e[1], e[2], e[3]
            if b[0] == "const":
                lo, hi, ex = st.facts.get(a); k = b[1]
                r = self._rng(p, lo, hi, ex, k)
                if r is not None: return r
            if strip(a) == strip(b) and a == b:
                return p in ("eq", "sle", "sge", "ule", "uge")
            lo, hi, _ = st.facts.get(e)
            if lo == hi: return bool(lo)
            ne = ("cmp", NEG[p], a, b)
            lo, hi, _ = st.facts.get(ne)
            if lo == hi: return not bool(lo)
            return None
        if e[0] == "bin" and e[1] == "xor" and e[3] == ("const", 1):
            t = self.truth(st, e[2])
            if t is not None: return not t
        lo, hi, ex = st.facts.get(e)
        if lo == hi: return bool(lo)
        if lo > 0 or hi < 0 or 0 in ex: return True
        return None
    def _rng(self, p, lo, hi, ex, k):
        if p == "eq":
            if lo == hi == k: return True
            if k < lo or k > hi or k in ex: return False
        elif p == "ne":
            if lo == hi == k: return False
            if k < lo or k > hi or k in ex: return True
        elif p == "slt":
            if hi < k: return True
            if lo >= k: return False
        elif p == "sle":
            if hi <= k: return True
            if lo > k: return False
        elif p == "sgt":
            if lo > k: return True
            if hi <= k: return False
        elif p == "sge":
            if lo >= k: return True
            if hi < k: return False
        elif lo >= 0 and k >= 0:
            return self._rng("s" + p[1:], lo, hi, ex, k)
        elif p == "ugt" and k == 0:
            if 0 in ex or hi < 0: return True
            if lo == hi == 0: return False
        return None
    def assume(self, st, e, val):
        """refine st with boolean e == val; False if infeasible"""
        if e[0] == "const": return bool(e[1] & 1) == val
        if e[0] == "cmp":
            p, a, b = e[1], e[2], e[3]
            if not val: p = NEG[p]
            if b[0] == "const":
                if a[0] == "bin" and a[1] == "and" and p in ("eq", "ne") and b[1] == 0:
                    pass
                # boolean stored as integer: (zext bool) != 0
                if a[0] == "cmp" and p in ("eq", "ne") and b[1] in (0, 1):
                    return self.assume(st, a, (p == "eq") == (b[1] == 1))
                return st.facts.assume(a, p, b[1])
            t = self.truth(st, ("cmp", p, a, b))
            if t is not None: return t
            return st.facts.assume(("cmp", p, a, b), "eq", 1)
        if e[0] == "bin" and e[1] == "xor" and e[3] == ("const", 1):
            return self.assume(st, e[2], not val)
        if e[0] == "bin" and e[1] in ("and", "or") :
            if (e[1] == "and") == val and False: pass
        return st.facts.assume(e, "ne" if val else "eq", 0)

    # ---- memory
    def kill_val(self, st, i):
        """instruction i is executed again: forget everything about its old value"""
        for k in [k for k in st.facts.m if mentions(k, i)]: del st.facts.m[k]
        for k in [k for k, v in st.mem.items() if mentions(k, i) or mentions(v, i)]: del st.mem[k]
        for k in [k for k, v in st.env.items() if mentions(v, i) and k != i]: 
            st.env[k] = ("val", k)
        st.env.pop(i, None)
    def may_alias(self, a, b):
        a = strip(a); b = strip(b)
        if a == b: return True
        ra, rb = root(a), root(b)
        if ra[0] == "alloca" and rb[0] == "alloca" and ra != rb and self._direct(a) and self._direct(b): return False
        if (ra[0] == "alloca") != (rb[0] == "alloca") and (self._direct(a) if ra[0] == "alloca" else self._direct(b)):
            x = ra if ra[0] == "alloca" else rb
            y, z = (a, b) if ra[0] == "alloca" else (b, a)
            # a scalar local is not a member of any object
            if y[0] == "alloca" and z[0] == "fld" and re.match(r"(ptr|i\d+)$", self.fn.ins[x[1]].j.get("aty", "")): return False
            if x[1] not in self.escaped: return False
            if z[0] == "fld" and "." in z[2] and not self.holds(self.fn.ins[x[1]].j.get("aty", ""), z[2].rsplit(".", 1)[0]): return False
        ka, kb = self.addrkey(a), self.addrkey(b)
        if ka.startswith("f:") and kb.startswith("f:"): return ka == kb
        if ka.startswith("g:") and kb.startswith("g:"): return ka == kb
        if ka.startswith("f:") and kb.startswith("g:") or ka.startswith("g:") and kb.startswith("f:"): return False
        return True
    def holds(self, aty, cls):
        """can an object of type aty contain a member of class cls (decided only for plain local structs)"""
        m = re.match(r"%(struct|class)\.([\w:]+)$", aty)
        T = self.fn.prog.types
        if not m or m.group(2) not in T: return True
        seen = set(); todo = [m.group(2)]
        while todo:
            t = todo.pop()
            if t in seen: continue
            seen.add(t)
            if t == cls or cls.startswith(t + "::"): return True
            if t not in T:
                if "cyclone" in t or "<" in t: return True
                continue
            for e in T[t]: todo.append(re.sub(r"\[.*$", "", e[3]).strip())
        return False
    def _direct(self, a):
        while a[0] in ("fld", "idx", "off"): a = a[1]
        return a[0] == "alloca"
    @functools.cached_property
    def escaped(self):
        """allocas whose address is passed to a call or stored"""
        fn = self.fn; out = set(); derived = {}
        def al(o):
            if o[0] != "v": return None
            I = fn.ins[o[1]]
            if I.op == "alloca": return I.i
            if I.op in ("getelementptr", "bitcast"): return al(I.o[0])
            if I.op == "phi":
                for v, _ in I.j["in"]:
                    if v != o:
                        r = al(v) if v[0] == "v" and fn.ins[v[1]].op != "phi" else None
                        if r is not None: return r
            return None
        for I in fn.all():
            if I.op == "call":
                for o in I.o:
                    a = al(o)
                    if a is not None: out.add(a)
            elif I.op == "store":
                a = al(I.o[0])
                if a is not None: out.add(a)
        return out
    def store(self, st, a, v):
        for k in [k for k in st.mem if self.may_alias(k, a)]: del st.mem[k]
        st.mem[a] = v
    def clobber(self, st, I):
        """opaque call: forget heap and escaped locals"""
        args = set()
        for k in list(st.mem):
            r = root(k)
            if r[0] == "alloca" and self._direct(k) and r[1] not in self.escaped: continue
            if r[0] == "alloca" and self._direct(k) and getattr(self.rule, "keep_locals", False): 
                # locals captured only by the callee's argument list of this call
                used = any(root(self.ev(st, o)) == r for o in I.o)
                if not used: continue
            del st.mem[k]

    # ---- main loop
    def run(self):
        fn = self.fn; rule = self.rule
        st0 = State(rule.init(), mem=dict(self.mem0))
        for e, p, k in self.argfacts: st0.facts.assume(e, p, k)
        seen = set(); work = [(0, None, st0, None)]; wide = {}
        hook = getattr(rule, "backedge", None)
        while work:
            b, pb, st, prov = work.pop()
            # phis
            if pb is not None:
                self._phis(b, pb, st)
            self._prune(b, st)
            if (pb, b) in fn.backedges:
                # counters kept in memory: forget a cell that has held many constants here
                for k, v in list(st.mem.items()):
                    if v[0] == "const":
                        vs = wide.setdefault((b, k), set()); vs.add(v[1])
                        if len(vs) > 40: del st.mem[k]
            key = (b, st.key())
            if key in seen: continue
            seen.add(key); self.visited += 1
            if self.visited > self.MAXSTATES:
                raise Vanished("state space of %s exceeds the bound" % fn.base)
            node = (prov, b)
            for st2 in self._block(b, st, node):
                t = fn.term(b)
                for s, st3 in self._branch(t, st2):
                    self.edges += 1
                    if hook is not None and (b, s) in fn.backedges: hook(st3, b, s, self)
                    work.append((s, b, st3, node))
        return self
    def _prune(self, b, st):
        fn = self.fn
        live = self._live[b]; ml = self._livemem[b]
        for k in [k for k in st.env if k not in live]: del st.env[k]
        # facts about values that are neither live nor reachable through memory
        memvals = set(st.mem.values())
        km = getattr(self.rule, "keepmem", None)
        for k in [k for k, v in st.mem.items() if self.addrkey(k) not in ml]:
            if km is None or not km(k): del st.mem[k]
        keepv = set()
        for v in st.mem.values():
            for x in subexprs(v): keepv.add(x)
        for v in st.env.values():
            for x in subexprs(v): keepv.add(x)
        rsk = self.rule.keep_exprs(st.rs) if hasattr(self.rule, "keep_exprs") else ()
        for v in rsk:
            for x in subexprs(v): keepv.add(x)
        def ok(e):
            if e in keepv: return True
            k = e[0]
            if k in ("ld", "call", "phi", "val"):
                return e[1] in live
            if k == "arg": return True
            if k in ("cmp", "bin"):
                return ok(e[2]) and ok(e[3])
            if k == "const": return True
            if k == "xv": return ok(e[1])
            return True
        for k in [k for k in st.facts.m if not ok(k)]: del st.facts.m[k]
    def _flagphis(self):
        """phis that only ever hold a few constants or truth values (flags set on the way round a loop)"""
        fn = self.fn; memo = {}
        def fin(o, seen):
            if o[0] == "c": return abs(o[1]) < 256
            if o[0] != "v": return False
            I = fn.ins[o[1]]
            if I.i in seen: return True
            if I.op == "phi": return all(fin(v, seen | {I.i}) for v, _ in I.j["in"])
            if I.op == "select": return fin(I.o[1], seen | {I.i}) and fin(I.o[2], seen | {I.i})
            if I.op in ("zext", "trunc"): return fin(I.o[0], seen | {I.i})
            return I.ty == "i1"
        return {I.i for I in fn.all() if I.op == "phi" and not I.ty.startswith("ptr") and fin(["v", I.i], frozenset())}
    def _phis(self, b, pb, st):
        fn = self.fn; new = {}
        if not hasattr(fn, "flagphis"): fn.flagphis = self._flagphis()
        back = (pb, b) in fn.backedges
        for I in fn.blocks[b]:
            if I.op != "phi": break
            for v, p in I.j["in"]:
                if p == pb:
                    e = self.ev(st, v) if v[0] != "u" else ("opaque", "undef")
                    new[I.i] = e; break
        for i, e in new.items():
            old = st.env.get(i)
            if i in fn.flagphis and e[0] != "const":
                t = self.truth(st, e)
                lo, hi, ex = st.facts.get(e) if e[0] != "cmp" else (0, 1, ())
                if lo == hi: e = ("const", lo)
                elif t is not None and (e[0] == "cmp" or e[0] == "call" and fn.ins[e[1]].ty == "i1" or e[0] in ("val", "ld", "phi") and fn.ins[e[1]].ty == "i1"):
                    e = ("const", (-1 if fn.ins[i].ty == "i1" else 1) if t else 0)
            if back and e != old:
                # value changes around the loop: unknown from now on
                self.kill_val(st, i)
                if e[0] == "const" and (fn.ins[i].ty == "i1" or i in fn.flagphis) or e[0] in ("ld", "call", "val") and not mentions(e, i) and not any(x[0] == "phi" for x in subexprs(e)):
                    st.env[i] = e
                else:
                    st.env[i] = ("phi", i)
            else:
                if mentions(e, i):
                    self.kill_val(st, i); e = ("phi", i)
                st.env[i] = e
    def _block(self, b, st, node):
        states = [st]
        for I in self.fn.blocks[b]:
            if I.op == "phi": continue
            nxt = []
            for s in states:
                self.cur = (node, I)
                r = self._step(s, I)
                nxt.extend(r)
            states = nxt
            if not states: return []
        return states
    def _step(self, st, I):
        op = I.op
        if op in ("load", "call", "alloca", "select", "cmpxchg", "atomicrmw", "extractvalue", "insertvalue") or I.i in st.env:
            if op in ("load", "call", "select", "cmpxchg", "atomicrmw"): self.kill_val(st, I.i)
        pre = getattr(self.rule, "pre", None)
        r = self.rule.step(st, I, self)
        outs = [st] if r is None else r
        for s in outs:
            if op == "load":
                a = self.ev(s, I.o[0])
                v = s.mem.get(a)
                if v is None and a[0] == "glob": v = self.fn.prog.constglob(a[1])
                if v is None or I.j.get("at"):        # an atomic location may change at any time
                    v = ("ld", I.i, a)
                    if not I.j.get("at"): s.mem[a] = v
                    if I.ty == "i1": pass
                s.env[I.i] = v
            elif op == "store":
                self.store(s, self.ev(s, I.o[1]), self.ev(s, I.o[0]))
            elif op == "call":
                s.env[I.i] = ("call", I.i, I.callee, tuple(self.ev(s, a) for a in I.o))
                pv = self.rule.model(s, I, self) if hasattr(self.rule, "model") else None
                if pv is not None:
                    s.env[I.i] = pv
                if not (I.callee and self.pure.search(I.callee)):
                    self.clobber(s, I)
            elif op in ("cmpxchg", "atomicrmw"):
                a = self.ev(s, I.o[0])
                for k in [k for k in s.mem if self.may_alias(k, a)]: del s.mem[k]
                s.env[I.i] = ("val", I.i)
            elif op == "select":
                s.env[I.i] = self.ev_ins(s, I)
            elif op == "ret":
                self.rule.exit(s, I, self)
        if op == "call" and I.j.get("nr"): return []
        if op in ("ret", "unreachable"): return []
        return outs
    def _branch(self, t, st):
        if t.op == "br":
            if len(t.j["t"]) == 1: return [(t.j["t"][0], st)]
            c = self.ev(st, t.o[0]); out = []
            tr = self.truth(st, c)
            for val, s in ((True, t.j["t"][0]), (False, t.j["t"][1])):
                if tr is not None and tr != val: continue
                st2 = st.copy()
                if not self.assume(st2, c, val): continue
                if hasattr(self.rule, "branch"):
                    if self.rule.branch(st2, t, c, val, self) is False: continue
                out.append((s, st2))
            return out
        if t.op == "switch":
            c = self.ev(st, t.o[0]); out = []
            for k, s in t.j["cases"]:
                st2 = st.copy()
                if self.assume(st2, ("cmp", "eq", c, ("const", k)), True): out.append((s, st2))
            st2 = st.copy(); ok = True
            for k, s in t.j["cases"]:
                if not self.assume(st2, ("cmp", "eq", c, ("const", k)), False): ok = False; break
            if ok: out.append((t.j["def"], st2))
            return out
        return []
    def trace(self, node=None, I=None):
        """source lines of a witness path"""
        node, cur = self.cur if node is None else (node, I)
        blocks = []
        while node is not None:
            blocks.append(node[1]); node = node[0]
        blocks.reverse()
        lines = []
        for b in blocks:
            for x in self.fn.blocks[b]:
                if x.d:
                    l = "%s:%d" % (x.d[0][1], x.d[0][0])
                    if not lines or lines[-1] != l: lines.append(l)
                if x is cur: break
        return lines
