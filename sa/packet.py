"""Class-invariant and contract analysis of the message packet (C17, C18, C19)."""
import re
from num import *
from poly import *
import ir
from ring import RB

PK = "cyclone::Packet"
F = ("m_head_size", "m_static_buf", "m_memory_buf", "m_memory_size", "m_packet_size", "m_packet_id", "m_content")
TAIL = 8
expect = lambda *a: RB.expect(None, *a)

def layout(P):
    t = P.types.get(PK)
    if not t: raise Vanished("type cyclone::Packet not found")
    off = {f[2]: f[0] for f in t}; size = {f[2]: f[1] for f in t}
    for f in F:
        if f not in off: raise Vanished("Packet::%s not found" % f)
    off["#static"] = size["m_static_buf"]; off["#size"] = max(f[0] + f[1] for f in t)
    return off

class PNum(Num):
    """members of a packet: the inline buffer is a block of its own; 16-bit wire values are remembered by where they are in a stream"""
    off = None
    def step(self, st, I):
        out = Num.step(self, st, I)
        if I.op == "getelementptr" or I.op == "phi":
            for s in out:
                v = s.env.get(I.i)
                if v and v[0] == "p" and isinstance(v[1], str) and v[1] + ".static" in s.blk and v[2].is_const():
                    d = v[2].c - self.off["m_static_buf"]
                    if 0 <= d < self.off["#static"]: s.env[I.i] = ("p", v[1] + ".static", Lin(d))
        return out
    def w16(self, st, stream, pos):
        """the 16-bit value at a position of a stream"""
        tab = st.g.get("w16", ())
        for s0, p0, v in tab:
            if s0 == stream and st.enteq(p0 - pos): return v
        v = V(fresh("wire")); st.cons.add(v); st.cons.add(-v + 0xffff)
        st.g["w16"] = tab + ((stream, pos, v),)
        return v
    def load(self, st, p, ty, I, nbytes):
        if ty == "i16" and p[0] == "p" and p[1] in st.blk and st.segs.get(p[1]) and not (p[2].is_const() and (p[1], p[2].c) in st.mem):
            self.access(st, p, Lin(2), I, "load", False)
            out = []
            for s, pcs in self.content(st, p[1], p[2], Lin(2)):
                if len(pcs) == 1 and pcs[0][1] is not None:
                    v = self.w16(s, pcs[0][1], pcs[0][2]); s.mktag(v.t[0][0], (pcs[0][1], pcs[0][2], 2))
                    out.append((s, ("i", v, 16)))
                else: out.append((s, self.unknown(s, ty, "raw")))
            return out
        return Num.load(self, st, p, ty, I, nbytes)
    def storepiece(self, st, v, nbytes):
        if nbytes == 2 and v[0] == "i":
            (s2, e), = self.rep(st, v, False)[:1]
            name = "W%d" % fresh("w")
            st.g["w16"] = st.g.get("w16", ()) + ((name, Lin(0), e),)
            return [(Lin(2), name, Lin(0))]
        return []

def hton(E, st, e):
    """the byte-swapped value of e (an involution, remembered)"""
    tab = st.g.get("hton", ())
    for a, b in tab:
        if st.enteq(a - e): return b
        if st.enteq(b - e): return a
    v = V(fresh("host")); st.cons.add(v); st.cons.add(-v + 0xffff)
    st.g["hton"] = tab + ((e, v),)
    return v

def m_hton(E, st, I, a):
    return [(s, ("i", hton(E, s, e), 16)) for s, e in E.rep(st, a[0], False)]

class PKA:
    def __init__(self, P, sink, tag=""):
        self.P = P; self.off = layout(P); self.sink = sink; self.obl = []; self.tag = tag; self.methods = []; self.stats = {"states": 0, "returns": 0, "initial states": 0}
    # ---- objects
    def raw(self, E, st, name):
        E.newblk(st, name, self.off["#size"], "obj"); E.newblk(st, name + ".static", self.off["#static"], "stack")
    def put(self, st, name, f, v): st.mem[(name, self.off[f])] = (v, 8)
    def get(self, st, name, f):
        v = st.mem.get((name, self.off[f]))
        if v is None: return None
        return v[0]
    def setempty(self, st, name):
        for f in F:
            if f == "m_static_buf": continue
            self.put(st, name, f, ("i", Lin(0), 64) if f in ("m_head_size", "m_memory_size") else ("p", None, Lin(0)))
    def mk(self, E, st, name, kind, stream):
        """a packet satisfying the invariant: kind in empty/static/heap, with or without content"""
        self.raw(E, st, name)
        if kind == "empty": self.setempty(st, name); return {"kind": kind, "n": Lin(0), "head": Lin(0), "size": Lin(0)}
        head = V(fresh(name + ".head")); n = V(fresh(name + ".len")); c = st.cons
        c.add(head - 4); c.add(-head + MAXOBJ); c.add(n); c.add(-n + 0xffff)
        if kind.endswith("0"): c.add(-n)
        else: c.add(n - 1)
        size = head + n
        if kind.startswith("static"): c.add(-size - TAIL + self.off["#static"]); b = name + ".static"
        else:
            b = name + ".heap"; E.newblk(st, b, size + TAIL, "heap")
        st.segs[b] = (Seg(Lin(0), size, stream, Lin(0)),)
        w = E.w16(st, stream, Lin(0)); st.g["hton"] = st.g.get("hton", ()) + ((w, n),)
        self.put(st, name, "m_head_size", ("i", head, 64)); self.put(st, name, "m_memory_size", ("i", size, 64))
        self.put(st, name, "m_memory_buf", ("p", b, Lin(0))); self.put(st, name, "m_packet_size", ("p", b, Lin(0))); self.put(st, name, "m_packet_id", ("p", b, Lin(2)))
        self.put(st, name, "m_content", ("p", None, Lin(0)) if kind.endswith("0") else ("p", b, head))
        return {"kind": kind, "n": n, "head": head, "size": size, "buf": b, "stream": stream}
    # ---- contracts of the class's own operations at their call sites
    def clean(self, E, st, I, a):
        nm = a[0][1]
        if nm not in st.blk: return [(st, None)]
        p = self.get(st, nm, "m_memory_buf")
        if p is None or p[0] != "p": E.report(st, "class invariant", I, "a packet is cleaned before its members are set"); return []
        if p[1] is not None and p[1] != nm + ".static":
            if p[1] in st.blk: E.free(st, p, I)
            else: E.report(st, "class invariant", I, "a packet is cleaned that does not own its memory"); return []
        self.setempty(st, nm); st.segs[nm + ".static"] = ()
        return [(st, None)]
    def ctor(self, E, st, I, a):
        if a[0][1] in st.blk and a[0][1] + ".static" not in st.blk: E.newblk(st, a[0][1] + ".static", self.off["#static"], "stack")
        self.setempty(st, a[0][1]); return [(st, None)]
    def new(self, E, st, I, a):
        k = st.g.get("new", 0); st.g["new"] = k + 1; nm = "new%d" % k
        E.newblk(st, nm, self.off["#size"], "heap"); E.newblk(st, nm + ".static", self.off["#static"], "stack")
        st.blk[nm].kind = "obj"
        for s, n in E.usize(st, a[0]): E.oblige(s, [n - self.off["#size"]], "memory access in bounds", I, "a new packet is as large as a packet")
        return [(st, ("p", nm, Lin(0)))]
    def size(self, E, st, I, a):
        p = self.get(st, a[0][1], "m_packet_size")
        if p is None: raise Vanished("packet size pointer")
        if p[1] is None: return [(st, ("i", Lin(0), 16))]
        return [(s, ("i", hton(E, s, e), 16)) for s, v in E.load(st, p, "i16", I, 2) for s, e in E.rep(s, v, False)]
    def models(self):
        one = lambda f, v: (lambda E, st, I, a: [(st, self.get(st, a[0][1], f))])
        return [(PK + "::clean", self.clean), (PK + "::~Packet", self.clean), (PK + "::Packet", self.ctor), (PK + "::operator new", self.new),
                (PK + "::get_packet_size", self.size),
                (PK + "::get_memory_buf", one("m_memory_buf", 0)), (PK + "::get_memory_size", one("m_memory_size", 0)), (PK + "::get_packet_content", one("m_content", 0)),
                ("cyclone::socket_api::ntoh_16", m_hton), (re.compile(r"^(ntohs|htons|__bswap_16|llvm\.bswap\.i16)$"), m_hton),
                (re.compile(r"^std::numeric_limits<unsigned short>::max$"), lambda E, st, I, a: [(st, ("i", Lin(0xffff), 16))]),
                ("cyclone::RingBuf::size", r_size), ("cyclone::RingBuf::empty", r_empty), ("cyclone::RingBuf::peek", r_peek), ("cyclone::RingBuf::memcpy_out", r_out), ("cyclone::RingBuf::discard", r_discard),
                ("cyclone::Pipe::read", p_read), ("noncopyable::noncopyable", lambda E, st, I, a: [(st, None)]), ("noncopyable::~noncopyable", lambda E, st, I, a: [(st, None)])]
    # ---- invariant at exit
    def inv(self, E, st, T, name, owned):
        """invariant; returns list of (state, None | (buf, head, n)) ; owned collects heap blocks"""
        g = {f: self.get(st, name, f) for f in F if f != "m_static_buf"}
        def bad(what):
            E.seen_obl[("class invariant", T.i, what)] = False
            E.report(st, "class invariant", T, "%s on return" % what); return []
        for f, v in g.items():
            if v is None: return bad("%s of %s is not known to be set" % (f, name))
        b = g["m_memory_buf"]
        def good(what): E.seen_obl.setdefault(("class invariant", T.i, what), True)
        if b[1] is None:
            for f in ("m_packet_size", "m_packet_id", "m_content"):
                if g[f][1] is not None: return bad("an empty packet has no %s" % f)
            E.oblige(st, [g["m_memory_size"][1], -g["m_memory_size"][1]], "class invariant", T, "an empty packet has no size")
            good("an empty packet has no memory")
            return [(st, None)]
        B = st.blk.get(b[1])
        if B is None or not B.live or not (b[2].is_const() and b[2].c == 0) or not (b[1] == name + ".static" or B.kind == "heap"):
            return bad("a packet's memory is its own inline buffer or live heap memory")
        if B.kind == "heap": owned.append(b[1])
        for f, d in (("m_packet_size", 0), ("m_packet_id", 2)):
            if g[f][1] != b[1] or not st.enteq(g[f][2] - d): return bad("%s designates its place in the head" % f)
        out = []
        for s, head in E.rep(st, g["m_head_size"], False):
            for s1, sz in E.rep(s, g["m_memory_size"], False):
                for s2, w in E.load(s1, ("p", b[1], Lin(0)), "i16", T, 2):
                    for s3, e in E.rep(s2, w, False):
                        n = hton(E, s3, e)
                        E.oblige(s3, [head - 4], "class invariant", T, "the head has at least four bytes")
                        E.oblige(s3, [sz - head - n, head + n - sz], "class invariant", T, "the memory size is head plus the size stored big-endian in the head")
                        E.oblige(s3, [B.size - sz - TAIL], "class invariant", T, "the memory is large enough for head, content and tail")
                        c = g["m_content"]
                        for s4, zero in E.order(s3, n, Lin(0)):
                            if zero:
                                if c[1] is not None: bad("a packet without content has no content pointer"); continue
                            elif c[1] != b[1] or not s4.enteq(c[2] - head): bad("the content starts right behind the head"); continue
                            good("content pointer"); out.append((s4, (b[1], head, n)))
        return out
    def leaks(self, E, st, T, owned):
        for b, B in st.blk.items():
            if B.kind == "heap" and B.live and b not in owned and not b.startswith("other"):
                E.report(st, "heap memory is owned", T, "memory %s is neither freed nor owned by the packet on return" % re.sub(r"#\d+.*", "", b)); E.seen_obl[("heap memory is owned", T.i, b)] = False
            elif B.kind == "heap": E.seen_obl.setdefault(("heap memory is owned", T.i, b), True)
    # ---- drive
    def run(self, base, nargs, cases, post):
        f = self.P.one(PK + "::" + base, nargs)
        allobl = {}
        for case in cases:
            E = PNum(f, self.sink, self.models(), name="Packet::" + base + self.tag); E.off = self.off; E.BUDGET = 60
            # the operation under analysis is not replaced by its own contract
            E.models = [m for m in E.models if m[0] != f.base]
            st = St()
            c = case(E, st)
            if c is None or not st.cons.feasible(): continue
            self.stats["initial states"] += 1
            try:
                E.run(st); self.stats["states"] += E.steps
                if not E.rets: self.sink("contract", "%s:%d" % (f.file, f.line), "Packet::%s never returns" % base, [])
                for s, v, T in E.rets:
                    self.stats["returns"] += 1
                    vs = E.toint(s, v) if v is not None and v[0] not in ("i", "p") else [(s, v)]
                    for s1, v1 in vs:
                        if v1 is not None and v1[0] == "i" and v1[2] == 1: vs2 = [(q, ("i", Lin(int(b)), 1)) for q, b in E.cond(s1, v1)]
                        else: vs2 = [(s1, v1)]
                        for s2, v2 in vs2: post(E, s2, v2, T, c)
            except Refuted: pass
            finally: disarm()
            for k, ok in E.seen_obl.items():
                kk = (f.ins[k[1]].where() if k[1] in f.ins else f.base, k[0], k[2])
                allobl[kk] = allobl.get(kk, True) and ok
        for (w, rule, d), ok in allobl.items(): self.obl.append((rule, w, ok, "Packet::" + base + self.tag))
        self.methods.append(base)

# ---- the stream sources
def r_size(E, st, I, a): return [(st, ("i", st.g["ring.size"] - st.g["ring.pos"], 64))]
def r_empty(E, st, I, a): return [(st, ("cmp", "eq", ("i", st.g["ring.size"] - st.g["ring.pos"], 64), ("i", Lin(0), 64)))]
def min2(E, s, a, b): return [(s1, a if le else b) for s1, le in E.order(s, a, b)]
def deliver(E, s, dst, n, stream, pos, I):
    E.access(s, dst, n, I, "write", True)
    if dst[1] not in s.blk or s.ent(-n): return [s]
    for k in [k for k in s.mem if k[0] == dst[1]]: del s.mem[k]
    return E.write(s, dst[1], dst[2], n, [(n, stream, pos)])
def r_peek(E, st, I, a):
    out = []
    for s, o in E.usize(st, a[1]):
        for s, n in E.usize(s, a[3]):
            left = s.g["ring.size"] - s.g["ring.pos"] - o
            for s1, behind in E.order(s, left, Lin(0)):
                if behind: out.append((s1, ("i", Lin(0), 64))); continue
                for s2, m in min2(E, s1, n, left):
                    for s3 in deliver(E, s2, a[2], m, "R0", s2.g["ring.pos"] + o, I): out.append((s3, ("i", m, 64)))
    return out
def r_out(E, st, I, a):
    out = []
    for s, n in E.usize(st, a[2]):
        left = s.g["ring.size"] - s.g["ring.pos"]
        for s2, m in min2(E, s, n, left):
            for s3 in deliver(E, s2, a[1], m, "R0", s2.g["ring.pos"], I):
                s3.g["ring.pos"] = s3.g["ring.pos"] + m; out.append((s3, ("i", m, 64)))
    return out
def r_discard(E, st, I, a):
    out = []
    for s, n in E.usize(st, a[1]):
        for s2, m in min2(E, s, n, s.g["ring.size"] - s.g["ring.pos"]):
            s2.g["ring.pos"] = s2.g["ring.pos"] + m; out.append((s2, ("i", m, 64)))
    return out
def p_read(E, st, I, a):
    out = []
    for s, n in E.usize(st, a[2]):
        E.access(s, a[1], n, I, "pipe read", True)
        k = V(fresh("got")); s.cons.add(k + 1)
        if not s.assume(n - k): continue
        for s1, none in E.order(s, k, Lin(0)):
            if none: out.append((s1, ("i", k, 64))); continue
            for s2 in deliver(E, s1, a[1], k, "P0", s1.g["pipe.pos"], I):
                s2.g["pipe.pos"] = s2.g["pipe.pos"] + k; out.append((s2, ("i", k, 64)))
    return out

MEMRULES = {"memory access in bounds", "no access after free", "freed exactly once", "memcpy ranges do not overlap", "no write to const", "heap memory is owned"}

def analyse(P, sink, tag="", ndebug=False):
    A = PKA(P, sink, tag); KINDS = ("empty", "static0", "static", "heap0", "heap")
    def arg64(E, st, k, name, lo=0, hi=MAXOBJ):
        v = V(fresh(name)); st.cons.add(v - lo); st.cons.add(-v + hi); st.env[("a", k)] = ("i", v, 64); return v
    def this(kind, more=None):
        def case(E, st):
            c = {"this": A.mk(E, st, "this", kind, "T0")}; st.env[("a", 0)] = ("p", "this", Lin(0))
            if more: c.update(more(E, st) or {})
            return c
        return case
    def fin(E, s, T, names=("this",)):
        """invariant and ownership; list of (state, shapes)"""
        sts = [(s, {}, [])]
        for n in names:
            nx = []
            for s0, sh, ow in sts:
                for s1, r in A.inv(E, s0, T, n, ow): nx.append((s1, dict(sh, **{n: r}), ow))
            sts = nx
        for s0, sh, ow in sts: A.leaks(E, s0, T, ow)
        return [(s0, sh) for s0, sh, ow in sts]
    def empty(E, s, T, sh, what):
        ok = sh is None
        E.seen_obl[("contract", T.i, what)] = E.seen_obl.get(("contract", T.i, what), True) and ok
        if not ok: E.report(s, "contract", T, what)
    must = lambda E, s, T, e, what: E.oblige(s, [e, -e], "contract", T, what)
    # construction, cleaning, destruction
    def c_ctor(E, st):
        A.raw(E, st, "this"); st.env[("a", 0)] = ("p", "this", Lin(0)); return {}
    def p_empty(what):
        def post(E, s, v, T, c):
            for s1, sh in fin(E, s, T): empty(E, s1, T, sh["this"], what)
        return post
    A.run("Packet", 1, [c_ctor], p_empty("a new packet is empty"))
    A.run("clean", 1, [this(k) for k in KINDS], p_empty("a cleaned packet is empty"))
    def p_dtor(E, s, v, T, c): A.leaks(E, s, T, [])
    A.run("~Packet", 1, [this(k) for k in KINDS], p_dtor)
    # what is read back
    def p_read(which):
        def post(E, s, v, T, c):
            t = c["this"]
            for s1, e in E.rep(s, v, False):
                if t["kind"] == "empty": must(E, s1, T, e, "an empty packet has %s 0" % which); continue
                if which == "size": must(E, s1, T, e - t["n"], "the size read back is the one stored big-endian in the head")
                else: must(E, s1, T, e - hton(E, s1, E.w16(s1, "T0", Lin(2))), "the id read back is the one stored big-endian in the head")
        return post
    A.run("get_packet_size", 1, [this(k) for k in KINDS], p_read("size"))
    A.run("get_packet_id", 1, [this(k) for k in KINDS], p_read("id"))
    # building from memory
    def mem(n1, n2):
        def more(E, st):
            c = {"head": arg64(E, st, 1, "head", 4)}
            i = V(fresh("id")); st.cons.add(i); st.cons.add(-i + 0xffff); st.env[("a", 2)] = ("i", i, 16); c["id"] = i
            for k, name, null in ((3, "s1", n1), (5, "s2", n2)):
                v = V(fresh(name)); st.cons.add(v); st.cons.add(-v + 0xffff); st.env[("a", k)] = ("i", v, 16); c[name] = v
                if null: st.env[("a", k + 1)] = ("p", None, Lin(0))
                else:
                    st.env[("a", k + 1)] = E.newblk(st, name, v, "data", const=True); st.segs[name] = (Seg(Lin(0), v, name.upper(), Lin(0)),)
            c["null"] = (n1, n2); return c
        return more
    def p_mem(E, s, v, T, c):
        tot = c["s1"] + c["s2"]
        for s0, fits in E.order(s, tot, Lin(0xffff)):
            for s1, sh in fin(E, s0, T):
                if not fits: empty(E, s1, T, sh["this"], "a content of more than 65535 bytes leaves the packet empty"); continue
                if sh["this"] is None: empty(E, s1, T, (), "a content that fits is stored"); E.report(s1, "contract", T, "a content that fits is stored"); continue
                b, head, n = sh["this"]
                must(E, s1, T, head - c["head"], "the head size is the requested one")
                must(E, s1, T, n - tot, "the size stored is the sum of the parts")
                for s2, w in E.load(s1, ("p", b, Lin(2)), "i16", T, 2):
                    for s3, e in E.rep(s2, w, False): must(E, s3, T, hton(E, s3, e) - c["id"], "the id is stored big-endian")
                    pos = head
                    for name, null in (("s1", c["null"][0]), ("s2", c["null"][1])):
                        if not null:
                            for s3, pcs in E.content(s2, b, pos, c[name]): expect(E, s3, T, pcs, [(c[name], name.upper(), Lin(0))], "the parts are stored one after the other behind the head")
                        pos = pos + c[name]
    A.run("build_from_memory", 7, [this(k, mem(a, b)) for k in KINDS for a in (0, 1) for b in (0, 1) if (a, b) == (0, 0) or k in ("empty", "heap")], p_mem)
    # extracting
    def rng(E, st):
        R = V(fresh("buffered")); st.cons.add(R); st.cons.add(-R + MAXOBJ); st.g["ring.size"] = R; st.g["ring.pos"] = Lin(0)
        E.newblk(st, "ring", 64, "obj"); st.env[("a", 2)] = ("p", "ring", Lin(0))
        return {"R": R, "head": arg64(E, st, 1, "head", 4)}
    def p_ring(E, s, v, T, c):
        used = s.g["ring.pos"]; R = c["R"]
        t = v[1].c & 1
        for s1, sh in fin(E, s, T):
            for s2, some in E.order(s1, Lin(2), R):
                N = hton(E, s2, E.w16(s2, "R0", Lin(0)))
                if not t:
                    must(E, s2, T, used, "a failed extraction consumes nothing")
                    empty(E, s2, T, sh["this"], "a failed extraction leaves the packet empty")
                    if some: E.oblige(s2, [c["head"] + N - R - 1], "contract", T, "extraction fails only when fewer bytes than head plus content are buffered")
                    continue
                if not some or sh["this"] is None: E.oblige(s2, [Lin(-1)], "contract", T, "extraction succeeds only with a complete packet"); continue
                b, head, n = sh["this"]
                must(E, s2, T, head - c["head"], "the head size is the requested one")
                must(E, s2, T, n - N, "the content size is the announced one")
                must(E, s2, T, used - head - N, "a successful extraction consumes exactly head plus content")
                for s3, pcs in E.content(s2, b, Lin(0), head + n): expect(E, s3, T, pcs, [(head + n, "R0", Lin(0))], "the packet holds exactly the extracted bytes")
    A.run("build_from_ringbuf", 3, [this(k, rng) for k in KINDS], p_ring)
    def pip(E, st):
        st.g["pipe.pos"] = Lin(0); E.newblk(st, "pipe", 64, "obj"); st.env[("a", 2)] = ("p", "pipe", Lin(0))
        return {"head": arg64(E, st, 1, "head", 4)}
    def p_pipe(E, s, v, T, c):
        used = s.g["pipe.pos"]; t = v[1].c & 1
        for s1, sh in fin(E, s, T):
            if not t: empty(E, s1, T, sh["this"], "a failed build leaves the packet empty"); continue
            if sh["this"] is None: E.oblige(s1, [Lin(-1)], "contract", T, "a build succeeds only with a complete packet"); continue
            b, head, n = sh["this"]
            must(E, s1, T, head - c["head"], "the head size is the requested one")
            must(E, s1, T, n - hton(E, s1, E.w16(s1, "P0", Lin(0))), "the content size is the announced one")
            must(E, s1, T, used - head - n, "a build succeeds only if exactly the announced bytes were read")
            for s2, pcs in E.content(s1, b, Lin(0), head + n): expect(E, s2, T, pcs, [(head + n, "P0", Lin(0))], "the packet holds exactly the bytes read")
    A.run("build_from_pipe", 3, [this(k, pip) for k in KINDS], p_pipe)
    # copying
    def src(kind):
        def case(E, st):
            if kind is None: st.env[("a", 0)] = ("p", None, Lin(0)); return {"o": None}
            o = A.mk(E, st, "other", kind, "O0"); st.env[("a", 0)] = ("p", "other", Lin(0))
            return {"o": o, "mem": {k: v for k, v in st.mem.items() if k[0] == "other"}}
        return case
    def p_copy(E, s, v, T, c):
        if v[0] != "p" or v[1] is None or not v[1].startswith("new"): E.report(s, "contract", T, "a copy is a packet of its own"); E.seen_obl[("contract", T.i, "own")] = False; return
        o = c["o"]
        if o:
            same = all(s.mem.get(k) == m for k, m in c["mem"].items())
            E.seen_obl[("contract", T.i, "copying leaves the source alone")] = same
            if not same: E.report(s, "contract", T, "copying leaves the source alone")
            if o.get("buf") and o["buf"].endswith("heap") and not s.blk[o["buf"]].live: E.report(s, "contract", T, "copying frees the source's memory")
        for s1, sh in fin(E, s, T, (v[1],)):
            r = sh[v[1]]
            if o is None or o["kind"] == "empty": empty(E, s1, T, r, "a packet made from nothing is empty"); continue
            if r is None: E.report(s1, "contract", T, "a copy has the content of its source"); E.seen_obl[("contract", T.i, "copy")] = False; continue
            b, head, n = r
            ok = not b.startswith("other"); E.seen_obl[("contract", T.i, "own memory")] = ok
            if not ok: E.report(s1, "contract", T, "a copy has memory of its own")
            must(E, s1, T, head - o["head"], "a copy has the head size of its source"); must(E, s1, T, n - o["n"], "a copy has the size of its source")
            for s2, pcs in E.content(s1, b, Lin(0), head + n): expect(E, s2, T, pcs, [(head + n, "O0", Lin(0))], "a copy holds the full content of its source")
    A.run("alloc_packet", 1, [src(k) for k in (None,) + KINDS], p_copy)
    return A

if __name__ == "__main__":
    import sys, time, build
    js, u = build.view("prim"); P = ir.Prog(js, u); t = time.time()
    def sink(rule, where, detail, trace): print("BAD", rule, where, detail)
    A = analyse(P, sink)
    print(A.methods, len(A.obl), sum(1 for o in A.obl if o[2]), A.stats, time.time() - t)
    for o in A.obl:
        if not o[2]: print(o)
