"""Class-invariant and contract analysis of the byte ring buffer (C01, C02)."""
import re
from num import *
from poly import *
import ir

FIELDS = {"m_buf": None, "m_end": None, "m_read": None, "m_write": None}
MEMRULES = {"memory access in bounds", "no access after free", "freed exactly once", "memcpy ranges do not overlap", "loop makes progress",
            "class invariant", "scratch memory is freed", "no division by zero", "declared extent", "kernel transfer extents", "no write to const"}

def layout(P):
    t = P.types.get("cyclone::RingBuf")
    if not t: raise Vanished("type cyclone::RingBuf not found")
    off = {f[2]: f[0] for f in t}
    for f in FIELDS:
        if f not in off: raise Vanished("RingBuf::%s not found" % f)
    return off

def mkring(E, st, off, name, stream, wrapped):
    """a ring buffer object satisfying the class invariant; wrapped: content crosses the end"""
    end = fresh(name + ".end"); rd = fresh(name + ".read"); wr = fresh(name + ".write")
    end, rd, wr = V(end), V(rd), V(wr)
    c = st.cons
    c.add(end - 1); c.add(-end + MAXOBJ); c.add(rd); c.add(end - rd - 1); c.add(wr); c.add(end - wr - 1)
    E.newblk(st, name, 32, "obj")
    E.newblk(st, name + ".buf", end, "heap")
    st.mem[(name, off["m_buf"])] = (("p", name + ".buf", Lin(0)), 8)
    for f, v in (("m_end", end), ("m_read", rd), ("m_write", wr)): st.mem[(name, off[f])] = (("i", v, 64), 8)
    if wrapped:
        c.add(rd - wr - 1)
        size = end - rd + wr
        st.segs[name + ".buf"] = tuple(E.merge(st, [Seg(rd, end, stream, Lin(0)), Seg(Lin(0), wr, stream, end - rd)]))
    else:
        c.add(wr - rd)
        size = wr - rd
        st.segs[name + ".buf"] = tuple(E.merge(st, [Seg(rd, wr, stream, Lin(0))]))
    return {"end": end, "read": rd, "write": wr, "size": size, "name": name, "stream": stream}

def field(st, off, name, f):
    v = st.mem.get((name, off[f]))
    if v is None: raise Vanished("field %s of %s has no value" % (f, name))
    return v[0]

class Ring:
    """post-state view of a ring buffer; splits on wrapped/not wrapped"""
    def __init__(s, st, off, name):
        s.st = st; s.name = name
        s.buf = field(st, off, name, "m_buf")
        s.end = field(st, off, name, "m_end")[1]; s.read = field(st, off, name, "m_read")[1]; s.write = field(st, off, name, "m_write")[1]

class RB:
    def __init__(self, P, sink):
        self.P = P; self.off = layout(P); self.sink = sink; self.obl = []; self.stats = {"states": 0, "returns": 0, "initial states": 0}
        self.methods = []; self.gaveup = []
    def fn(self, base, nargs=None):
        return self.P.one("cyclone::RingBuf::" + base, nargs)
    def eng(self, f):
        E = Num(f, self.sink, models(self), name="RingBuf::" + f.base.split("::")[-1])
        return E
    # ---- invariant and content at exit
    def norms(self, E, st, name):
        """normalise the three indices as unsigned; list of states with plain fields"""
        sts = [st]
        for f in ("m_end", "m_read", "m_write"):
            nx = []
            for s in sts:
                v = field(s, self.off, name, f)
                for s2, e in E.rep(s, v, False):
                    if s2 is s and len(sts) > 1: s2 = s
                    s2.mem[(name, self.off[f])] = (("i", e, 64), 8); nx.append(s2)
            sts = nx
        return sts
    def inv(self, E, st, T, name, allow=None):
        """class invariant holds for ring `name` at exit"""
        R = Ring(st, self.off, name)
        B = st.blk.get(R.buf[1]) if R.buf[0] == "p" else None
        ok = B is not None and B.live and B.kind == "heap" and R.buf[2].is_const() and R.buf[2].c == 0
        if not ok:
            E.report(st, "class invariant", T, "%s.m_buf does not own live storage on return" % name)
            E.seen_obl[("class invariant", T.i, name)] = False
            return None
        good = E.oblige(st, [R.end - 1, R.read, R.end - R.read - 1, R.write, R.end - R.write - 1, B.size - R.end], "class invariant", T, "0<=read,write<end<=storage size for %s on return" % name)
        return R if good else None
    def leaks(self, E, st, T, owned):
        for b, B in st.blk.items():
            if B.kind == "heap" and B.live and b not in owned and not b.endswith("!"):
                E.report(st, "scratch memory is freed", T, "storage %s is neither freed nor owned by the buffer on return" % re.sub(r"#\d+.*", "", b))
                E.seen_obl[("scratch memory is freed", T.i, b)] = False
            elif B.kind == "heap": E.seen_obl.setdefault(("scratch memory is freed", T.i, b), True)
        for b in owned:
            pass
    def final(self, E, st, T, name):
        """list of (state, size, pieces) of the content in FIFO order"""
        out = []
        R = Ring(st, self.off, name)
        for s, le in E.order(st, R.read, R.write):
            if le:
                for s2, p in E.content(s, R.buf[1], R.read, R.write - R.read): out.append((s2, R.write - R.read, p, R))
            else:
                for s2, p in E.content(s, R.buf[1], R.read, R.end - R.read):
                    for s3, q in E.content(s2, R.buf[1], Lin(0), R.write): out.append((s3, R.end - R.read + R.write, p + q, R))
        return out
    def expect(self, E, st, T, got, want, what):
        """pieces `got` equal the concatenation of `want` [(len, stream, pos)]"""
        def same(s, g, w):
            g = [x for x in g if not s.ent(-x[0])]; w = [x for x in w if not s.ent(-x[0])]
            if not g and not w: return []
            if not g or not w:
                rest = g or w
                # contradiction unless the remaining length is zero
                tot = Lin(0)
                for x in rest: tot = tot + x[0]
                s2 = s.copy()
                if not s2.assume(tot - 1): return []
                return [(s2, "length", g, w)]
            a, b = g[0], w[0]
            # zero-length pieces: split
            out = []
            for s1, zero in E.order(s, a[0], Lin(0)):
                if zero: out += same(s1, g[1:], w); continue
                for s2, zero2 in E.order(s1, b[0], Lin(0)):
                    if zero2: out += same(s2, g, w[1:]); continue
                    if a[1] != b[1] or not s2.enteq(a[2] - b[2]):
                        out.append((s2, "content", g, w)); continue
                    for s3, le in E.order(s2, a[0], b[0]):
                        if le: out += same(s3, g[1:], [(b[0] - a[0], b[1], b[2] + a[0])] + w[1:])
                        else: out += same(s3, [(a[0] - b[0], a[1], a[2] + b[0])] + g[1:], w[1:])
            return out
        bad = same(st, got, want)
        E.seen_obl[("content", T.i, what)] = E.seen_obl.get(("content", T.i, what), True) and not bad
        for s, kind, g, w in bad[:1]:
            E.report(s, "content", T, "%s (%s differs: has %s, expected %s)" % (what, kind, show(g), show(w)))
    def mustbe(self, E, st, T, e, what, rule="contract"):
        """e == 0"""
        return E.oblige(st, [e, -e], rule, T, what)
    # ---- drive one method
    def run(self, base, nargs, setup, post, wrapped=(False, True), ring=True, owned_extra=()):
        f = self.fn(base, nargs)
        E = None
        allobl = {}
        for w in wrapped:
            for label, init in setup(w):
                if self.gaveup and self.gaveup[-1].find(base) >= 0: continue
                E = self.eng(f)
                E.BUDGET = 25 if len(self.gaveup) < 5 else 5
                st = St()
                r = None
                if ring: r = mkring(E, st, self.off, "this", "R0", w)
                else:
                    E.newblk(st, "this", 32, "obj")
                st.env[("a", 0)] = ("p", "this", Lin(0))
                ctx = init(E, st, r)
                if ctx is False: continue
                if not st.cons.feasible(): continue
                self.stats["initial states"] += 1
                try:
                    try: E.run(st)
                    except Vanished as e:
                        # what was explored is still judged; the method as a whole has no answer
                        self.gaveup.append(str(e)); 
                    self.stats["states"] += E.steps
                    if not E.rets and not self.gaveup: self.sink("contract", "%s:%d" % (f.file, f.line), "RingBuf::%s never returns" % base, [])
                    for s, v, T in E.rets:
                        self.stats["returns"] += 1
                        if v is not None and v[0] not in ("i", "p"):
                            vs = E.toint(s, v)
                        else: vs = [(s, v)]
                        for s1, v1 in vs: post(E, s1, v1, T, r, ctx)
                except Refuted: pass
                finally: disarm()
                for k, ok in E.seen_obl.items():
                    allobl[(f.ins[k[1]].where() if k[1] in f.ins else f.base, k[0], k[2])] = allobl.get((f.ins[k[1]].where() if k[1] in f.ins else f.base, k[0], k[2]), True) and ok
        for (w, rule, d), ok in allobl.items(): self.obl.append((rule, w, ok, "RingBuf::" + base))
        self.methods.append(base)

def show(ps):
    return " ++ ".join("%s[%r..+%r]" % (p[1] or "?", p[2], p[0]) if p[1] else "?[+%r]" % p[0] for p in ps) or "nothing"

def szarg(E, st, k, name, hi=(1 << 64) - 1):
    v = V(fresh(name)); st.cons.add(v); st.cons.add(-v + hi)
    st.env[("a", k)] = ("i", v, 64)
    return v

def models(rb):
    def adler(E, st, I, args):
        out = []
        for s, n in E.usize(st, args[2]):
            E.access(s, args[1], n, I, "checksum read", False)
            if args[1][1] in s.blk:
                for s2, pcs in E.content(s, args[1][1], args[1][2], n):
                    v = E.unknown(s2, "i32", "adler")
                    s2.g["adler.pieces"] = tuple(s2.g.get("adler.pieces", ())) + tuple(pcs)
                    chain = s2.g.get("adler.cur")
                    okc = args[0][0] == "i" and ((chain is None and s2.enteq(args[0][1] - 1)) or (chain is not None and s2.enteq(args[0][1] - chain)))
                    if not okc: E.report(s2, "contract", I, "the running checksum is not passed on to the next segment")
                    s2.g["adler.cur"] = v[1]
                    if len(s2.g["adler.pieces"]) > 6: E.report(s2, "content", I, "the checksum covers more than the content once"); continue
                    out.append((s2, v))
        return out
    def memchr(E, st, I, args):
        out = []
        for s, n in E.usize(st, args[2]):
            E.access(s, args[0], n, I, "search read", False)
            b = args[0][1]
            for s2, pcs in E.content(s, b, args[0][2], n):
                want = s2.env[("a", 2)]
                c = args[1]
                same = c[0] == "i" and want[0] == "i" and (c[1] == want[1] or s2.enteq(c[1] - want[1]))
                if not same: E.report(s2, "contract", I, "searches for another byte than the requested one")
                s3 = s2.copy()
                s3.g["scan"] = tuple(s3.g.get("scan", ())) + tuple(pcs)
                if len(s3.g["scan"]) > 6: E.report(s3, "content", I, "the search looks at more than the content once"); continue
                out.append((s3, ("p", None, Lin(0))))
                k = V(fresh("hit"))
                s2.cons.add(k)
                if s2.assume(n - k - 1):
                    s2.g["found"] = (tuple(s2.g.get("scan", ())), tuple(pcs), k)
                    out.append((s2, ("p", b, args[0][2] + k)))
        return out
    def iov(E, st, ptr, cnt, I):
        """list of (state, [(ptr,len)])"""
        out = []
        for s, n in E.rep(st, cnt, True):
            if not n.is_const(): 
                # small symbolic count: split
                for k in range(0, 4):
                    s2 = s.copy()
                    if s2.assume_eq(n - k): out += iov(E, s2, ptr, ("i", Lin(k), 32), I)
                if s.assume(n - 4): raise Vanished("vector count is not bounded")
                continue
            E.access(s, ptr, Lin(16 * n.c), I, "vector read", False)
            vs = []
            sts = [(s, [])]
            for i in range(n.c):
                nx = []
                for s1, acc in sts:
                    if not ptr[2].is_const(): raise Vanished("io vector at a variable offset")
                    o = ptr[2].c + 16 * i
                    p = s1.mem.get((ptr[1], o)); l = s1.mem.get((ptr[1], o + 8))
                    if p is None or l is None:
                        E.report(s1, "kernel transfer extents", I, "io vector entry %d is not initialised" % i); continue
                    for s2, e in E.rep(s1, l[0], False): nx.append((s2, acc + [(p[0], e)]))
                sts = nx
            out += sts
        return out
    def readv(E, st, I, args):
        out = []
        for s, vec in iov(E, st, args[1], args[2], I):
            tot = Lin(0)
            for p, n in vec:
                E.access(s, p, n, I, "kernel write", True); tot = tot + n
            # error / end of file
            e = s.copy(); r = V(fresh("ret")); e.cons.add(r + 1); e.cons.add(-r); e.g["kret"] = r
            out.append((e, ("i", r, 64)))
            r = V(fresh("got"))
            s.g["kret"] = r
            if not s.assume(r - 1) or not s.assume(tot - r): continue
            out += [(x, ("i", r, 64)) for x in fill(E, s, vec, r, Lin(0))]
        return out
    def fill(E, st, vec, left, pos):
        if not vec: return [st]
        p, n = vec[0]
        out = []
        for s, le in E.order(st, left, n):
            k = left if le else n
            for s2 in E.write(s, p[1], p[2], k, [(k, "K", pos)]):
                if le: out.append(s2)
                else: out += fill(E, s2, vec[1:], left - n, pos + n)
        return out
    def writev(E, st, I, args):
        out = []
        for s, vec in iov(E, st, args[1], args[2], I):
            states = [(s, [], Lin(0))]
            for p, n in vec:
                nx = []
                for s1, acc, tot in states:
                    E.access(s1, p, n, I, "kernel read", False)
                    for s2, pcs in E.content(s1, p[1], p[2], n): nx.append((s2, acc + pcs, tot + n))
                states = nx
            for s1, acc, tot in states:
                e = s1.copy(); r = V(fresh("ret")); e.cons.add(r + 1); e.cons.add(-r); e.g["kret"] = r; e.g["out"] = ()
                out.append((e, ("i", r, 64)))
                r = V(fresh("sent"))
                if not s1.assume(r - 1) or not s1.assume(tot - r): continue
                s1.g["kret"] = r; s1.g["out"] = tuple(s1.g.get("out", ())) + tuple(acc); s1.g["sent"] = r
                out.append((s1, ("i", r, 64)))
        return out
    def viamsg(f):
        """sendmsg/recvmsg: the io vector named by the message header"""
        def m(E, st, I, args):
            p = args[1]
            E.access(st, p, Lin(56), I, "message header", False)
            if p[0] != "p" or not p[2].is_const(): raise Vanished("message header at an unknown place")
            o = p[2].c
            v = st.mem.get((p[1], o + 16)); n = st.mem.get((p[1], o + 24))
            if v is None or n is None:
                E.report(st, "kernel transfer extents", I, "the message header's io vector is not initialised"); return []
            return f(E, st, I, [args[0], v[0], n[0]])
        return m
    def errno(E, st, I, args): return [(st, ("p", "?errno", Lin(0)))]
    return [("cyclone::adler32", adler), ("memchr", memchr), ("readv", readv), ("writev", writev),
            ("sendmsg", viamsg(writev)), ("recvmsg", viamsg(readv)), ("__errno_location", errno)]

def analyse(P, sink):
    rb = RB(P, sink)
    off = rb.off
    plain = lambda mk: (lambda w: [("", mk)])
    def exit_checks(E, st, T, rings, extra=()):
        """invariant of every ring + no leaked storage; list of (state, {name: Ring})"""
        res = []
        sts = [st]
        for n in rings:
            nx = []
            for s in sts: nx += rb.norms(E, s, n)
            sts = nx
        for s in sts:
            R = {}
            for n in rings:
                r = rb.inv(E, s, T, n)
                if r is None: R = None; break
                R[n] = r
            if R is None: continue
            rb.leaks(E, s, T, {r.buf[1] for r in R.values()})
            res.append((s, R))
        return res
    def keep_content(E, s, T, name, want, what):
        for s2, size, pcs, R in rb.final(E, s, T, name):
            rb.expect(E, s2, T, pcs, want, what)
    # constructor
    def ctor(w):
        def init(E, st, r):
            return {"cap": szarg(E, st, 1, "capacity", MAXOBJ - 2)}
        return [("", init)]
    def ctor_post(E, st, v, T, r, c):
        for s, R in exit_checks(E, st, T, ["this"]):
            rb.mustbe(E, s, T, R["this"].end - 1 - c["cap"], "a new buffer has the requested capacity")
            rb.mustbe(E, s, T, R["this"].read - R["this"].write, "a new buffer is empty")
    rb.run("RingBuf", 2, ctor, ctor_post, wrapped=(False,), ring=False)
    # destructor
    def dtor_post(E, st, v, T, r, c):
        B = st.blk["this.buf"]
        E.seen_obl[("freed exactly once", T.i, "dtor")] = not B.live
        if B.live: E.report(st, "scratch memory is freed", T, "the destructor does not free the storage")
    rb.run("~RingBuf", 1, plain(lambda E, st, r: {}), dtor_post)
    # observers
    def const_post(val, what):
        def post(E, st, v, T, r, c):
            for s, R in exit_checks(E, st, T, ["this"]):
                for s2, e in E.rep(s, v, False):
                    val(E, s2, e, T, r, R["this"], what)
                keep_content(E, s, T, "this", [(r["size"], "R0", Lin(0))], "observers leave the content alone")
        return post
    eq = lambda f: (lambda E, s, e, T, r, R, what: rb.mustbe(E, s, T, e - f(r), what))
    none = plain(lambda E, st, r: {})
    rb.run("size", 1, none, const_post(eq(lambda r: r["size"]), "size() is the number of unread bytes"))
    rb.run("capacity", 1, none, const_post(eq(lambda r: r["end"] - 1), "capacity() is the storage size less one"))
    rb.run("get_free_size", 1, none, const_post(eq(lambda r: r["end"] - 1 - r["size"]), "get_free_size() + size() == capacity()"))
    def boolval(f):
        def val(E, s, e, T, r, R, what):
            # e in {0,1} equals (f(r)==0)
            x = f(r)
            s1 = s.copy()
            if s1.assume_eq(x): rb.mustbe(E, s1, T, e - 1, what)
            s2 = s.copy()
            if s2.assume(x - 1): rb.mustbe(E, s2, T, e, what)
        return val
    rb.run("empty", 1, none, const_post(boolval(lambda r: r["size"]), "empty() iff size() is zero"))
    if P.has("cyclone::RingBuf::full"): rb.run("full", 1, none, const_post(boolval(lambda r: r["end"] - 1 - r["size"]), "full() iff no free byte"))
    # reset
    def reset_post(E, st, v, T, r, c):
        for s, R in exit_checks(E, st, T, ["this"]):
            rb.mustbe(E, s, T, R["this"].read - R["this"].write, "reset() leaves the buffer empty")
            rb.mustbe(E, s, T, R["this"].end - r["end"], "reset() keeps the capacity")
    rb.run("reset", 1, none, reset_post)
    # resize
    def resize_setup(w):
        return [("", lambda E, st, r: {"need": szarg(E, st, 1, "need", MAXOBJ)})]
    def resize_post(E, st, v, T, r, c):
        for s, R in exit_checks(E, st, T, ["this"]):
            E.oblige(s, [R["this"].end - 1 - c["need"]], "contract", T, "after asking for room for n bytes the capacity is at least n")
            E.oblige(s, [R["this"].end - r["end"]], "contract", T, "resize never shrinks the buffer")
            keep_content(E, s, T, "this", [(r["size"], "R0", Lin(0))], "growing keeps the content")
    rb.run("resize", 2, resize_setup, resize_post)
    # memcpy_into
    def into_setup(w):
        def init(E, st, r):
            n = szarg(E, st, 2, "count", MAXOBJ)
            E.newblk(st, "src", n, "data", const=True); st.segs["src"] = (Seg(Lin(0), n, "S", Lin(0)),)
            st.env[("a", 1)] = ("p", "src", Lin(0))
            return {"n": n}
        return [("", init)]
    def into_post(E, st, v, T, r, c):
        for s, R in exit_checks(E, st, T, ["this"]):
            keep_content(E, s, T, "this", [(r["size"], "R0", Lin(0)), (c["n"], "S", Lin(0))], "appending n bytes puts exactly those bytes behind the old content")
    rb.run("memcpy_into", 3, into_setup, into_post)
    # memcpy_out
    def minsplit(E, s, a, b):
        return [(s1, a if le else b) for s1, le in E.order(s, a, b)]
    def out_setup(w):
        def mk(over):
            def init(E, st, r):
                n = szarg(E, st, 2, "count")
                if not st.assume(n - r["size"] - 1 if over else r["size"] - n): return False
                E.newblk(st, "dst", r["size"] if over else n, "data"); st.env[("a", 1)] = ("p", "dst", Lin(0))
                return {"n": n}
            return init
        return [("", mk(False)), ("all", mk(True))]
    def out_post(E, st, v, T, r, c):
        for s, R in exit_checks(E, st, T, ["this"]):
            for s1, e in E.rep(s, v, False):
                for s2, m in minsplit(E, s1, c["n"], r["size"]):
                    rb.mustbe(E, s2, T, e - m, "the returned count is min(count, size)")
                    for s3, pcs in E.content(s2, "dst", Lin(0), m):
                        rb.expect(E, s3, T, pcs, [(m, "R0", Lin(0))], "the bytes handed out are the oldest ones in order")
                    keep_content(E, s2, T, "this", [(r["size"] - m, "R0", m)], "exactly the handed out bytes are consumed")
                    rb.mustbe(E, s2, T, R["this"].end - r["end"], "the capacity is unchanged")
    rb.run("memcpy_out", 3, out_setup, out_post)
    # discard
    def discard_post(E, st, v, T, r, c):
        for s, R in exit_checks(E, st, T, ["this"]):
            for s1, e in E.rep(s, v, False):
                for s2, m in minsplit(E, s1, c["n"], r["size"]):
                    rb.mustbe(E, s2, T, e - m, "the returned count is min(count, size)")
                    keep_content(E, s2, T, "this", [(r["size"] - m, "R0", m)], "exactly the discarded bytes are consumed")
    rb.run("discard", 2, plain(lambda E, st, r: {"n": szarg(E, st, 1, "count")}), discard_post)
    # moveto
    def move_setup(w):
        def other(dw):
            def init(E, st, r):
                d = mkring(E, st, off, "dst", "D0", dw)
                st.env[("a", 1)] = ("p", "dst", Lin(0))
                return {"n": szarg(E, st, 2, "count"), "d": d}
            return init
        def self_(E, st, r):
            st.env[("a", 1)] = ("p", "this", Lin(0))
            return {"n": szarg(E, st, 2, "count"), "d": None}
        return [("", other(False)), ("", other(True)), ("self", self_)]
    def move_post(E, st, v, T, r, c):
        for s, R in exit_checks(E, st, T, ["this"] + (["dst"] if c["d"] else [])):
            for s1, e in E.rep(s, v, False):
                if c["d"] is None:
                    # moving onto itself: nothing may be lost or duplicated (rotation by the returned count)
                    E.oblige(s1, [r["size"] - e], "contract", T, "moving a buffer onto itself reports at most its size")
                    for s2, size, pcs, _ in rb.final(E, s1, T, "this"):
                        rb.mustbe(E, s2, T, size - r["size"], "moving a buffer onto itself neither loses nor duplicates bytes")
                    continue
                for s2, m in minsplit(E, s1, c["n"], r["size"]):
                    rb.mustbe(E, s2, T, e - m, "the returned count is min(count, size)")
                    keep_content(E, s2, T, "dst", [(c["d"]["size"], "D0", Lin(0)), (m, "R0", Lin(0))], "the destination receives exactly the oldest bytes behind its content")
                    keep_content(E, s2, T, "this", [(r["size"] - m, "R0", m)], "exactly the moved bytes are consumed")
    rb.run("moveto", 3, move_setup, move_post)
    # peek
    def peek_setup(w):
        def mk(case):
            def init(E, st, r):
                o = szarg(E, st, 1, "off"); n = szarg(E, st, 3, "count")
                left = r["size"] - o
                if case == "behind": ok = st.assume(-left - 1); ext = Lin(0)
                elif case == "all": ok = st.assume(left) and st.assume(n - left - 1); ext = left
                else: ok = st.assume(left) and st.assume(left - n); ext = n
                if not ok: return False
                E.newblk(st, "dst", ext, "data"); st.env[("a", 2)] = ("p", "dst", Lin(0))
                return {"o": o, "n": n, "null": False}
            return init
        def b(E, st, r):
            o = szarg(E, st, 1, "off"); n = szarg(E, st, 3, "count"); st.env[("a", 2)] = ("p", None, Lin(0))
            return {"o": o, "n": n, "null": True}
        return [("", mk("in")), ("all", mk("all")), ("behind", mk("behind")), ("null", b)]
    def peek_post(E, st, v, T, r, c):
        for s, R in exit_checks(E, st, T, ["this"]):
            keep_content(E, s, T, "this", [(r["size"], "R0", Lin(0))], "peeking leaves the content alone")
            for s1, e in E.rep(s, v, False):
                if c["null"]: rb.mustbe(E, s1, T, e, "peeking into no memory returns 0"); continue
                for s2, inr in E.order(s1, c["o"], r["size"]):
                    if not inr: rb.mustbe(E, s2, T, e, "peeking behind the content returns 0"); continue
                    for s3, m in minsplit(E, s2, c["n"], r["size"] - c["o"]):
                        rb.mustbe(E, s3, T, e - m, "the returned count is min(count, size-off)")
                        for s4, pcs in E.content(s3, "dst", Lin(0), m):
                            rb.expect(E, s4, T, pcs, [(m, "R0", c["o"])], "peeked bytes are those at the given position")
    rb.run("peek", 4, peek_setup, peek_post)
    # search
    def search_setup(w):
        def init(E, st, r):
            o = szarg(E, st, 1, "off"); st.env[("a", 2)] = E.unknown(st, "i8", "data")
            return {"o": o}
        return [("", init)]
    def search_post(E, st, v, T, r, c):
        for s, R in exit_checks(E, st, T, ["this"]):
            keep_content(E, s, T, "this", [(r["size"], "R0", Lin(0))], "searching leaves the content alone")
            for s1, e in E.rep(s, v, True):
                f = s1.g.get("found")
                if f:
                    pre, hitp, k = f
                    tot = Lin(0)
                    for x in pre: tot = tot + x[0]
                    rb.expect(E, s1, T, list(pre), [(tot, "R0", c["o"])], "searching scans from the given position in order")
                    # the hit lies in the pieces of the last scan
                    rb.expect(E, s1, T, list(hitp), [(sum((x[0] for x in hitp), Lin(0)), "R0", c["o"] + tot)], "searching scans from the given position in order")
                    rb.mustbe(E, s1, T, e - (c["o"] + tot + k), "the position returned is that of the first match")
                else:
                    rb.mustbe(E, s1, T, e + 1, "no match is reported as -1")
                    for s2, inr in E.order(s1, c["o"], r["size"]):
                        if inr: rb.expect(E, s2, T, list(s2.g.get("scan", ())), [(r["size"] - c["o"], "R0", c["o"])], "no match is reported only after every byte was looked at")
    rb.run("search", 3, search_setup, search_post)
    # checksum
    def sum_post(E, st, v, T, r, c):
        for s, R in exit_checks(E, st, T, ["this"]):
            keep_content(E, s, T, "this", [(r["size"], "R0", Lin(0))], "checksumming leaves the content alone")
            for s1, e in E.rep(s, v, False):
                for s2, ok in E.order(s1, c["o"] + c["n"], r["size"]):
                    cur = s2.g.get("adler.cur")
                    pcs = list(s2.g.get("adler.pieces", ()))
                    if not ok:
                        rb.mustbe(E, s2, T, e - 1, "a range outside the content gives the initial checksum")
                        continue
                    rb.expect(E, s2, T, pcs, [(c["n"], "R0", c["o"])], "the checksum covers exactly the requested bytes in order")
                    rb.mustbe(E, s2, T, e - (cur if cur is not None else Lin(1)), "the checksum returned is the running checksum")
    rb.run("checksum", 3, plain(lambda E, st, r: {"o": szarg(E, st, 1, "off"), "n": szarg(E, st, 2, "count")}), sum_post)
    # normalize
    def norm_post(E, st, v, T, r, c):
        for s, R in exit_checks(E, st, T, ["this"]):
            keep_content(E, s, T, "this", [(r["size"], "R0", Lin(0))], "making the content contiguous keeps it")
            q = R["this"]
            ok = v[0] == "p" and v[1] == q.buf[1]
            E.seen_obl[("contract", T.i, "ptr")] = ok
            if not ok: E.report(s, "contract", T, "normalize returns a pointer outside the storage"); continue
            for s2, pcs in E.content(s, v[1], v[2], r["size"]):
                rb.expect(E, s2, T, pcs, [(r["size"], "R0", Lin(0))], "the returned memory holds the whole content contiguously")
            E.oblige(s, [v[2], q.end - v[2] - r["size"]], "declared extent", T, "the returned memory is inside the storage")
            rb.mustbe(E, s, T, v[2] - q.read, "the returned memory starts at the read position")
    rb.run("normalize", 1, none, norm_post)
    # read_socket
    def rs_setup(w):
        def mk(x):
            def init(E, st, r):
                st.env[("a", 1)] = E.unknown(st, "i32", "fd"); st.env[("a", 2)] = ("i", Lin(x), 1)
                return {"extra": x}
            return init
        return [("", mk(0)), ("", mk(1))]
    def rs_post(E, st, v, T, r, c):
        for s, R in exit_checks(E, st, T, ["this"]):
            k = s.g.get("kret")
            for s1, e in E.rep(s, v, True):
                if k is None:
                    E.report(s1, "contract", T, "read_socket returns without reading"); E.seen_obl[("contract", T.i, "reads")] = False; continue
                rb.mustbe(E, s1, T, e - k, "read_socket returns what the kernel reported")
                for s2, neg in E.order(s1, k, Lin(0)):
                    want = [(r["size"], "R0", Lin(0))]
                    if not neg: want.append((k, "K", Lin(0)))
                    keep_content(E, s2, T, "this", want, "a socket read appends exactly the bytes the kernel delivered, in order")
                if c["extra"] == 0: rb.mustbe(E, s1, T, R["this"].end - r["end"], "without the extra buffer the capacity is unchanged")
    rb.run("read_socket", 3, rs_setup, rs_post)
    # write_socket
    def ws_setup(w):
        def init(E, st, r):
            st.env[("a", 1)] = E.unknown(st, "i32", "fd")
            if not st.assume(r["size"] - 1): return False
            return {}
        return [("", init)]
    def ws_post(E, st, v, T, r, c):
        for s, R in exit_checks(E, st, T, ["this"]):
            k = s.g.get("kret")
            for s1, e in E.rep(s, v, True):
                if k is None: E.report(s1, "contract", T, "write_socket returns without writing"); E.seen_obl[("contract", T.i, "writes")] = False; continue
                rb.mustbe(E, s1, T, e - k, "write_socket returns what the kernel reported")
                for s2, neg in E.order(s1, k, Lin(0)):
                    if neg: keep_content(E, s2, T, "this", [(r["size"], "R0", Lin(0))], "a failed socket write leaves the content alone"); continue
                    outp = list(s2.g.get("out", ()))
                    tot = sum((x[0] for x in outp), Lin(0))
                    rb.expect(E, s2, T, outp, [(tot, "R0", Lin(0))], "bytes are offered to the kernel in order from the oldest on")
                    keep_content(E, s2, T, "this", [(r["size"] - k, "R0", k)], "a socket write consumes exactly what the kernel accepted")
    rb.run("write_socket", 2, ws_setup, ws_post)
    if rb.gaveup: raise Vanished("; ".join(rb.gaveup))
    return rb

if __name__ == "__main__":
    import sys, time, build
    js, u = build.view("core")
    P = ir.Prog(js, u)
    t = time.time()
    def sink(rule, where, detail, trace): print("BAD", rule, where, detail)
    rb = analyse(P, sink)
    print(len(rb.obl), sum(1 for o in rb.obl if o[2]), rb.stats, time.time() - t)
