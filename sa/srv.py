"""The TCP server (C20, C21, C25, C27, C28): the acceptor thread, the worker threads and the server object, as
typestate over every path through every function. Messages between them are followed by receiver and id: each
handler is analysed once per id, and what a handler does with an id tells which command the id stands for."""
import re
from collections import namedtuple
from evt import *
from net import NPURE, SHARED, SPCTOR, SPDTOR, INVALID, cst

SV, MT, WT, WK, CN = "cyclone::TcpServer", "cyclone::TcpServerMasterThread", "cyclone::TcpServerWorkThread", "cyclone::WorkThread", "cyclone::TcpConnection"
LIS = SV + "::Listener"
SPURE = re.compile(NPURE.pattern + r"|^cyclone::WorkThread::|^std::vector<|^__gnu_cxx::|^std::tuple<|^std::_Tuple|^std::_Head|^std::get<|^std::make_tuple|^std::operator|^operator (new|delete)|^snprintf$|^noncopyable|^std::map<|^std::_Rb|^std::thread"
                   r"|^cyclone::Looper::loop$|^cyclone::TcpServerWorkThread::~|^cyclone::TcpServerMasterThread::~|^std::forward|^std::move|^std::addressof|^std::advance")
CONT = [("acc", re.compile(r"^std::(vector|list|deque)<std::tuple<int, unsigned int>")), ("pool", re.compile(r"^std::(vector|list|deque)<cyclone::TcpServerWorkThread ?\*")),
        ("conn", re.compile(r"^std::(unordered_map|map)<int, std::shared_ptr<cyclone::TcpConnection>"))]
ITEQ = re.compile(r"operator(==|!=)(<.*>)?$")
NAMES = {"acc": "listening socket", "pool": "worker", "conn": "connection"}
SS = namedtuple("SS", "its done el ev bad src pend acc sent stv news cnt stale key won rej pend2")
ZERO = SS((), frozenset(), (), (), False, (), None, None, 0, None, (), 0, False, None, None, False, None)

def cont(c):
    for n, r in CONT:
        if r.search(c): return n
    return None
def meth(c): 
    if c.endswith(">") and not re.search(r"operator(->|>|>>|>=|<=>)$", c):
        d = 0
        for k in range(len(c) - 1, -1, -1):
            if c[k] == ">" and c[k - 1] != "-": d += 1
            elif c[k] == "<":
                d -= 1
                if d == 0: c = c[:k]; break
    d = 0
    for k in range(len(c) - 1, -1, -1):
        if c[k] == ">" and c[k - 1] != "-": d += 1
        elif c[k] == "<" and not c.endswith(("operator<", "operator<<")): d -= 1
        elif c[k] == ":" and d == 0: return c[k + 1:]
    return c
def norm(e):
    while e[0] == "cast": e = e[2]
    return e
def key(a, base):
    """position of address a inside the element at address base (None: not inside)"""
    k = []
    while a != base:
        if a[0] == "fld":
            if a[2].startswith("cyclone::"): k.append(a[2])
            a = a[1]
        elif a[0] == "idx":
            if cst(a[2]) is None: return None
            k.append(cst(a[2])); a = a[1]
        elif a[0] == "off": k.append(a[2]); a = a[1]
        elif a[0] == "cast": a = a[2]
        else: return None
    n = sum(x for x in k if isinstance(x, int)); f = tuple(x for x in k if not isinstance(x, int))
    return (n,) + f
def ralloca(a):
    while a[0] in ("fld", "idx", "off"): a = a[1]
    return a[1] if a[0] == "alloca" else None

def counted(fn):
    """phi -> True: counts 0, 1, 2 ... around its loop"""
    out = {}
    for I in fn.all():
        if I.op != "phi": continue
        ins = I.j["in"]
        z = [v for v, p in ins if v[0] == "c" and v[1] == 0]
        n = [v for v, p in ins if v[0] == "v" and fn.ins[v[1]].op == "add" and ["v", I.i] in [list(o) for o in fn.ins[v[1]].o] and any(o[0] == "c" and o[1] == 1 for o in fn.ins[v[1]].o)]
        if len(z) >= 1 and len(z) + len(n) == len(ins) and n: out[I.i] = True
    return out

class Srv(R0):
    keep_locals = True
    def __init__(s, f, sink, kind, mid=None, roles=None, keys=None):
        s.f = f; s.sink = sink; s.kind = kind; s.mid = mid; s.roles = roles or {}; s.keys = keys; s.hit = {}; s.name = f.short(); s.elem = {}; s.seen = set()
        k = 1 if f.args[0][0] == "agg.result" else 0
        s.this = argx(f, k); s.cnt = counted(f); s.finals = []; s.reads = 0; s.told = {}; s.elemix = {}; s.filled = set(); s.probe = [[], []]; s.again = []
    def init(s): return ZERO
    def ck(s, c, prop, rule, I, what, W, key=None):
        s.hit[rule] = s.hit.get(rule, 0) + 1
        s.sink(c, prop, rule, I.where(), "%s: %s" % (s.name, what), W, key); return c
    def keep_exprs(s, rs):
        out = [e for e in (rs.acc, rs.pend, rs.key, rs.won, rs.pend2) if e is not None]
        return out + [x[1] for x in rs.news]
    def keepmem(s, a): return a[0] == "alloca" or a[0] == "fld" and ralloca(a) is not None
    def split(s, st, outs):
        r = []
        for rs, e, facts in outs:
            b = st.copy(); b.rs = rs
            if all(b.facts.assume(e, p, k) is not False for p, k in facts): r.append(b)
        return r
    # ---- small maps inside the state
    def it(s, rs, a): return next((v for k, v in rs.its if k == a), None)
    def setit(s, rs, a, v): return rs._replace(its=tuple(sorted([(k, x) for k, x in rs.its if k != a] + ([(a, v)] if v else []))))
    def fl(s, rs, c): return next((v for k, v in rs.el if k == c), frozenset())
    def setfl(s, rs, c, v): return rs._replace(el=tuple(sorted([(k, x) for k, x in rs.el if k != c] + ([(c, frozenset(v))] if v is not None else []), key=lambda p: p[0])))
    def mark(s, rs, c, *add, drop=()): return s.setfl(rs, c, (s.fl(rs, c) - set(drop)) | set(add))
    def emit(s, st, e):
        s.seen.add(e); st.rs = st.rs._replace(ev=st.rs.ev + (e,) if st.rs.ev.count(e) < 2 else st.rs.ev)
    def src(s, rs, a): return next((v for k, v in rs.src if k == a), None)
    def setsrc(s, rs, a, v): return rs._replace(src=tuple(sorted([(k, x) for k, x in rs.src if k != a] + ([(a, v)] if v else []))))
    # ---- expressions
    def elemof(s, e):
        """container whose element e is computed from"""
        for x in subexprs(e):
            if x[0] == "call" and x[1] in s.elem: return s.elem[x[1]]
        return None
    def elembase(s, e):
        for x in subexprs(e):
            if x[0] == "call" and x[1] in s.elem: return x
        return None
    def field(s, e, c="acc"):
        """which part of the current element the address e is: 'ev' or 'sock'"""
        b = s.elembase(e)
        if b is None or s.elem[b[1]] != c or s.keys is None: return None
        a = e
        k = key(a, b)
        return {s.keys[0]: "ev", s.keys[1]: "sock"}.get(k) if k is not None else None
    def val(s, v):
        """which part of the current element the value v was loaded from"""
        v = norm(v)
        return s.field(v[2]) if v[0] == "ld" else None
    def conn(s, rs, e):
        """which connection an object address or shared pointer designates: 'elem', 'new', 'arg' or None"""
        for x in subexprs(e):
            if x[0] == "alloca":
                r = s.src(rs, x[1])
                if r: return r
            if x[0] == "call" and x[1] in s.elem and s.elem[x[1]] == "conn": return "elem"
            if x[0] == "arg" and "shared_ptr" in s.argty(x[1]): return "arg"
        return None
    def argty(s, k):
        d = re.sub(r"^[^(]*", "", s.f.j.get("name", "") or s.f.base)
        return "shared_ptr" if k != s.this[1] and s.f.args[k][1] == "ptr" and s.f.args[k][0] != "agg.result" and s.kind in ("shutconn", "onclose", "onmsg") else ""
    def recv(s, e):
        """receiver of a message: ('master',) | ('worker', container element or connection owner) | None"""
        e = norm(e)
        m, o = fieldof(e, MT)
        if m is not None and e[0] != "ld": return ("master", o)
        if e[0] == "ld":
            m, o = fieldof(e[2], WT)
            if m is not None:
                o = norm(o)
                return ("worker", o)
        return None
    # ---- transfer
    def step(s, st, I, W):
        rs = st.rs
        if I.op == "load": return s.load(st, I, W)
        if I.op == "store": return s.store(st, I, W)
        if I.op in ("atomicrmw", "cmpxchg"): return s.rmw(st, I, W)
        if I.op == "icmp" and s.kind == "stop":
            e = W.ev(st, ["v", I.i])
            if e[0] != "cmp" or e[1] not in ("eq", "ne"): return None
            x, y = norm(e[2]), norm(e[3])
            if not (x[0] == "call" and (x[2] or "").endswith("thread_get_current_id")): x, y = y, x
            if x[0] == "call" and (x[2] or "").endswith("thread_get_current_id") and s.elemof(y) == "pool":
                st.facts.m.pop(e, None); at, na = ("ne", "eq") if e[1] == "eq" else ("eq", "ne")
                return s.split(st, [(rs._replace(rej=True), e, [(at, 0)]), (s.mark(rs, "pool", "other"), e, [(na, 0)])])
            return None
        if I.op == "call":
            if I.callee and I.callee.startswith("llvm.memcpy"): return s.memcpy(st, I, W)
            return s.call(st, I, W)
        return None
    def load(s, st, I, W):
        a = W.ev(st, I.o[0]); p = s.field(a)
        if s.kind == "join" and "all:joined" in st.rs.ev and a[0] == "call" and s.elem.get(a[1]) == "pool" and a not in st.mem:
            e = ("ld", I.i, a); st.facts.m.pop(e, None)
            return [] if st.facts.assume(e, "ne", 0) is False else None
        if p and a not in st.mem:
            fl = s.fl(st.rs, "acc"); e = ("ld", I.i, a); st.facts.m.pop(e, None)
            known = next((x for x in fl if x.startswith(p + ":")), None)
            if known in (p + ":inv",): return [] if st.facts.assume(e, "eq", -1) is False else None
            if known: return [] if st.facts.assume(e, "ne", -1) is False else None
            return s.split(st, [(s.mark(st.rs, "acc", p + ":inv"), e, [("eq", -1)]), (s.mark(st.rs, "acc", p + ":valid"), e, [("ne", -1)])])
        if a in st.mem: return None
        e = ("ld", I.i, a)
        m, o = fieldof(a, SV)
        if m in ("m_running", "m_shutdown_ing") and s.kind == "stop":
            st.facts.m.pop(e, None); rs = st.rs
            if m == "m_running": return s.split(st, [(rs._replace(ev=rs.ev + ("notrunning",)), e, [("eq", 0)]), (rs, e, [("ne", 0)])])
            return s.split(st, [(rs._replace(ev=rs.ev + ("already",)), e, [("sgt", 0)]), (rs, e, [("eq", 0)])])
        if m == "m_master_thread" and s.kind in ("dtor", "join", "fwd"):
            st.facts.m.pop(e, None); rs = st.rs
            if "nomaster" in rs.ev: return [] if st.facts.assume(e, "eq", 0) is False else None
            if "master" in rs.ev: return [] if st.facts.assume(e, "ne", 0) is False else None
            return s.split(st, [(rs._replace(ev=rs.ev + ("nomaster",)), e, [("eq", 0)]), (rs._replace(ev=rs.ev + ("master",)), e, [("ne", 0)])])
        m, o = fieldof(a, WT)
        if m and o == s.this and m in s.roles.get("flag", ()) and s.kind == "work":
            st.facts.m.pop(e, None); rs = st.rs
            if any(x.startswith("flag:") for x in rs.ev): return None
            return s.split(st, [(rs._replace(ev=rs.ev + ("flag0",)), e, [("eq", 0)]), (rs._replace(ev=rs.ev + ("flag1",)), e, [("ne", 0)])])
        for x in subexprs(a):
            if x[0] == "call" and (x[2] or "").endswith("Packet::get_packet_content"): s.reads = max(s.reads, {"i8": 1, "i16": 2, "i32": 4}.get(I.ty, 8))
        m, o = fieldof(a, CN)
        if m == "m_state" and s.conn(st.rs, o) in ("elem", "new"):
            e = ("ld", I.i, a); st.facts.m.pop(e, None)
            if st.rs.stv is not None and s.conn(st.rs, o) == "elem":
                return [] if st.facts.assume(e, "eq", st.rs.stv) is False else None
            return s.split(st, [(st.rs._replace(stv=k), e, [("eq", k)]) for k in (0, 1, 2, 3)])
        return None
    def store(s, st, I, W):
        rs = st.rs; a = W.ev(st, I.o[1]); v = norm(W.ev(st, I.o[0]))
        al = ralloca(a)
        if al is not None and v[0] == "call" and cont(v[2]) and meth(v[2]) in ("begin", "end", "cbegin", "cend", "find", "lower_bound"):
            c = cont(v[2]); m = meth(v[2]).lstrip("c")
            ph = {"begin": "begin", "end": "end", "find": "find"}.get(m, "find")
            st.rs = s.setit(rs, al, (c, ph, v[1]))
            if ph == "begin": st.rs = st.rs._replace(done=st.rs.done - {c})
            return None
        if s.kind == "probe" and v[0] == "call" and (v[2] or "").endswith("::register_event"):
            b = s.elembase(a)
            if b is not None: s.probe[0].append(key(a, b))
        p = s.field(a)
        if p:
            inv = v[0] == "const" and v[1] in INVALID; fl = s.fl(rs, "acc")
            if inv and p == "ev":
                s.ck("ev:valid" not in fl and "ev:reg" not in fl and (fl & {"ev:dead", "ev:inv"} or s.kind == "dtor"), "C21", "an acceptor's event is deleted before its id is forgotten", I, "the id is reset", W)
            elif inv:
                s.ck(fl & {"sock:closed", "sock:inv"}, "C20", "a listening socket is closed before it is forgotten", I, "the socket is reset", W)
            elif p == "ev":
                s.ck(rs.pend is not None and v == rs.pend, "C21", "the id an acceptor remembers is that of its own registration", I, fmt(v), W)
                st.rs = rs = rs._replace(pend=None)
                st.rs = s.mark(rs, "acc", "ev:reg", drop=[x for x in fl if x.startswith("ev:")]); return None
            else: s.ck(False, "C20", "a listening socket is closed before it is forgotten", I, "the socket is overwritten with %s" % fmt(v), W)
            st.rs = s.mark(rs, "acc", p + ":inv", drop=[x for x in fl if x.startswith(p + ":")])
            return None
        m, o = fieldof(a, WT)
        if m and o == s.this and s.kind == "work" and v[0] == "const":
            s.emit(st, "flag:%s=%d" % (m, v[1]))
            return None
        m, o = fieldof(a, SV)
        if m and o == s.this: 
            if m == "m_running": s.setrun(st, v, I, W)
            elif m == "m_shutdown_ing" and s.kind in ("join", "start") and cst(v) == 0: s.reset(st, I, W)
            elif m == "m_shutdown_ing" and s.kind == "stop": s.ck(False, "C27", "only one caller wins the right to stop the server", I, "plain store of the flag", W)
        return None
    def reset(s, st, I, W):
        if s.kind == "join":
            s.ck(s.ended(st.rs), "C27", "a stop is forgotten only when every thread has ended", I, "the flag is taken back", W)
        if s.kind == "join" or "start:master" not in st.rs.ev: s.emit(st, "shutreset")
    def setrun(s, st, v, I, W):
        if s.kind == "join":
            s.ck(cst(v) != 0 or s.ended(st.rs), "C27", "the server counts as stopped only when every thread has ended", I, "marked as not running", W)
            if cst(v) == 0: s.emit(st, "norun")
    def memcpy(s, st, I, W):
        a = [W.ev(st, o) for o in I.o]
        if any(x[0] == "call" and (x[2] or "").endswith("Packet::get_packet_content") for x in subexprs(a[1])):
            s.reads = max(s.reads, cst(a[2]) or 1 << 20)
            if ralloca(a[0]) is not None: s.filled.add(ralloca(a[0]))
        return None
    def named(s, st, a):
        """what address a holds came with the message"""
        if ralloca(a) in s.filled: return True
        v = s.content(st, a) if a[0] == "alloca" else s.content(st, ("alloca", ralloca(a))) if ralloca(a) is not None else None
        return any(v is not None and x[0] == "call" and (x[2] or "").endswith("Packet::get_packet_content") or x[0] == "alloca" and x[1] in s.filled for x in (subexprs(v) if v is not None else subexprs(a)))
    def changed(s, st, a):
        """what a holds was computed from the message instead of being read from it"""
        v = s.content(st, a) if a[0] == "alloca" else None
        return v is not None and v[0] in ("bin", "const", "phi")
    def frommsg(s, v):
        """v was read from the message"""
        return v[0] == "ld" and any(x[0] == "alloca" and x[1] in s.filled or x[0] == "call" and (x[2] or "").endswith("Packet::get_packet_content") for x in subexprs(v[2]))
    def named1(s, st, I, W):
        if s.role() == "LISTEN": s.ck("named" in s.fl(st.rs, "acc"), "C27", "stopping to listen closes the socket that was named", I, "another one", W)
    def role(s): return s.roles.get((s.kind_recv(), s.mid)) if s.mid is not None else None
    def rmw(s, st, I, W):
        a = W.ev(st, I.o[0]); m, o = fieldof(a, SV)
        if m is None: return None
        rs = st.rs; e = ("val", I.i); st.facts.m.pop(e, None)
        def claimed():
            rs = st.rs
            if I.op != "cmpxchg": return s.split(st, [(rs._replace(won=e, cnt=1), e, [("eq", 0)]), (rs._replace(won=e, cnt=2), e, [("sgt", 0)])])
            old, won = ("xv", e, (0,)), ("xv", e, (1,))
            for x in (old, won): st.facts.m.pop(x, None)
            if cst(W.ev(st, I.o[1])) != 0 or not cst(W.ev(st, I.o[2])): return None
            outs = s.split(st, [(rs._replace(won=e, cnt=1), won, [("eq", 1)]), (rs._replace(won=e, cnt=2), won, [("eq", 0)])])
            for b in outs: b.facts.assume(old, "eq" if b.rs.cnt == 1 or I.j.get("weak") else "ne", 0)
            return outs
        if m == "m_shutdown_ing" and s.kind == "stop":
            s.ck("pool" in rs.done, "C27", "a stop from a worker is rejected before anything is changed", I, "the flag is set before every worker was compared with the caller", W)
            s.emit(st, "claim"); return claimed()
        if s.kind == "join" and I.j.get("sub", "xchg") == "xchg" and len(I.o) > 1 and m in ("m_running", "m_shutdown_ing"):
            v = W.ev(st, I.o[1])
            if m == "m_running": s.setrun(st, v, I, W)
            elif cst(v) == 0: s.reset(st, I, W)
            return None
        if m == "m_running" and s.kind == "start":
            s.emit(st, "claim"); return claimed()
        if m == "m_next_connection_id":
            st.rs = rs._replace(key=e)
        return None
    def loopend(s, st, c, I, W):
        """every element of c has been visited"""
        st.rs = s.setfl(st.rs._replace(done=st.rs.done | {c}), c, None)
        if c == "pool" and s.kind == "join":
            # what was done to every worker (to none of them when there is none)
            fl = next((v for k, v in st.rs.el if k == "pool*"), frozenset(("joined", "deleted")))
            for x in ("joined", "deleted"):
                if x in fl and "all:" + x not in st.rs.ev: s.emit(st, "all:" + x)
            st.rs = s.setfl(st.rs, "pool*", None)
    def ended(s, rs): return "all:joined" in rs.ev and ("join:master" in rs.ev or "nomaster" in rs.ev)
    def enter(s, st, c):
        st.rs = s.setfl(st.rs, c, frozenset())._replace(done=st.rs.done - {c}, stv=None if c == "conn" else st.rs.stv)
    def leave(s, st, c, I, W):
        """the loop moves on to the next element of c"""
        rs = st.rs; fl = s.fl(rs, c)
        if c == "acc": s.acc_done(st, fl, I, W)
        elif c == "pool" and s.kind == "master":
            if "shutlost" in fl and "shut1" not in fl:
                s.ck(False, "C27", "a control command is never lost", I, rs.pend2, W, key="lost command|shutdown command to a worker")
                rs = st.rs = rs._replace(pend2=None)
            else: s.ck("shut1" in fl and "shut2" not in fl, "C27", "every worker receives exactly one shutdown command", I, "%s commands for a worker" % (2 if "shut2" in fl else 1 if "shut1" in fl else 0), W)
        elif c == "pool" and s.kind == "stop":
            s.ck("other" in fl or rs.rej, "C27", "a stop from a worker is rejected before anything is changed", I, "a worker is not compared with the caller", W)
        elif c == "pool" and s.kind == "join":
            old = next((v for k, v in rs.el if k == "pool*"), None)
            rs = st.rs = s.setfl(rs, "pool*", fl if old is None else fl & old)
        elif c == "conn" and s.kind == "work":
            if rs.stv == 1: s.ck("shut" in fl, "C27", "a worker that shuts down shuts down every open connection", I, "a connected one is passed over", W)
            else: s.ck(rs.stv is not None or "shut" in fl, "C27", "a worker that shuts down shuts down every open connection", I, "a connection is not looked at", W)
        st.rs = s.setfl(st.rs, c, None)._replace(stv=None if c == "conn" else st.rs.stv)
    def acc_done(s, st, fl, I, W):
        if s.kind == "start_cb":
            s.ck("ev:reg" in fl, "C21", "every listening socket's event is registered and remembered", I, "left without", W)
            return
        if s.kind not in ("master", "dtor"): return
        s.ck(fl & {"sock:closed", "sock:inv"}, "C20", "every listening socket is closed", I, "left open", W)
        if s.kind != "dtor": s.ck(fl & {"ev:dead", "ev:inv"}, "C21", "every listening socket's event is deleted", I, "left registered", W)
        if fl & {"ev:dead", "sock:closed"}: st.rs = st.rs._replace(stale=True)
    def branch(s, st2, t, c, val, W):
        st = st2
        if c[0] != "cmp": return
        p, a, b = c[1], norm(c[2]), norm(c[3])
        if not val: p = NEG[p]
        # loop guards: i < size()
        def cnt_(x): return x == ("const", 0) or x[0] == "phi" and s.cnt.get(x[1])
        def size(x):
            if x[0] == "call" and cont(x[2]) and meth(x[2]) == "size": return cont(x[2])
            if x[0] == "ld" and fieldof(x[2], SV)[0] == "m_workthread_counts": return "pool"
            if s.kind == "start" and x[0] == "arg" and x != s.this: return "pool"
            return None
        if size(a) and cnt_(b): a, b, p = b, a, SWAP[p]
        if size(a) and size(b) and (a[0] == "call") != (b[0] == "call") and s.kind == "start":
            if b[0] == "call": a, b, p = b, a, SWAP[p]
            a = ("const", 0)
        if size(a) and not size(b): a, b, p = b, a, SWAP[p]
        if size(b) and not size(a) and not cnt_(a):
            k = size(b)
            if p in ("ult", "slt"): st.rs = st.rs._replace(news=tuple(x for x in st.rs.news if x[0] != k) + ((k, a, p),))
        if cnt_(a) and size(b) and size(b) != "conn":
            k = size(b)
            if p in ("ult", "slt", "ne"):
                s.enter(st, k); st.rs = s.mark(st.rs, k, "idx")
            elif p in ("uge", "sge", "eq"): s.loopend(st, k, t, W)
            elif p in ("ule", "sle") and a[0] == "phi":
                if s.kind == "start": s.ck(False, "C28", "the pool holds exactly the announced number of workers", t, "one round too many", W)
                s.enter(st, k); st.rs = s.mark(st.rs, k, "idx", "over")
            elif p in ("ugt", "sgt") and a[0] == "phi": s.loopend(st, k, t, W)
            return
        if s.kind == "master" and p == "eq" and (cnt_(a) and s.frommsg(b) or cnt_(b) and s.frommsg(a)): st.rs = s.mark(st.rs, "acc", "named")
        # caller compared with a worker's thread
        if s.kind == "stop":
            x, y = (a, b) if a[0] == "call" and (a[2] or "").endswith("thread_get_current_id") else (b, a)
            if x[0] == "call" and (x[2] or "").endswith("thread_get_current_id") and s.elemof(y) == "pool": s.compared(st, p == "eq")
    def compared(s, st, same):
        if same: st.rs = st.rs._replace(rej=True)
        else: st.rs = s.mark(st.rs, "pool", "other")
    def backedge(s, st, b, t, W):
        if s.kind == "start" and "idx" in s.fl(st.rs, "pool"):
            rs = st.rs
            s.ck(rs.sent == 1, "C28", "the pool holds exactly the announced number of workers", s.f.term(b), "%d worker(s) added in one round" % rs.sent, W)
            st.rs = rs._replace(sent=0)
        for c, fl in st.rs.el:
            if "idx" in fl: s.leave(st, c, s.f.term(b), W)
    def call(s, st, I, W):
        rs = st.rs; c = I.callee or ""; args = [W.ev(st, o) for o in I.o]
        res = ("call", I.i, I.callee, tuple(args)); st.facts.m.pop(res, None)
        k = cont(c); m = meth(c) if k else None
        if k: return s.contcall(st, I, W, k, m, args, res)
        if c == SV + "::shutdown_connection" and s.kind in ("onclose", "onmsg"):
            # what it sends is decided by its own analysis
            s.ck(s.conn(rs, args[-1]) == "arg", "C28", "a closing connection is reported under its own id", I, fmt(args[-1]), W); s.emit(st, "sent")
            return None
        # iterators
        if args and args[0][0] == "alloca" and s.it(rs, args[0][1]):
            a = args[0][1]; cc, ph, cid = s.it(rs, a); op = re.search(r"operator(\*|->|\+\+|==|!=|--|\+=|\+|-)", c.split("::")[-1] if "operator" in c.split("::")[-1] else c)
            q = re.search(r"operator(\*|->|\+\+|==|!=|--|\+=|-=|\+|-)(<.*>)?$", c)
            o = q.group(1) if q else None
            if o in ("*", "->"):
                s.ck(ph == "elem", "C28", "an entry is only used after it was found", I, "the iterator may be at the end", W)
                s.elem[I.i] = cc
                return None
            if o == "++":
                s.leave(st, cc, I, W); st.rs = s.setit(st.rs, a, (cc, "pos" if ph in ("elem",) else "lost", cid)); return None
            if o in ("==", "!=") and len(args) > 1 and args[1][0] == "alloca" and s.it(rs, args[1][1]):
                oth = s.it(rs, args[1][1])
                if ph == "end" and oth[1] != "end": a, (cc, ph, cid), oth = args[1][1], oth, (cc, ph, cid)
                if oth[1] == "end" and oth[0] == cc:
                    at = 1 if o == "==" else 0
                    outs = []
                    if ph != "elem":
                        b = st.copy(); b.rs = s.setit(b.rs, a, (cc, "atend", cid))
                        if ph in ("begin", "pos"): s.loopend(b, cc, I, W)
                        else: b.rs = b.rs._replace(cnt=3)
                        if b.facts.assume(res, "ne" if at else "eq", 0) is not False: outs.append(b)
                    b = st.copy(); b.rs = s.setit(b.rs, a, (cc, "elem", cid))
                    if ph in ("begin", "pos"): s.enter(b, cc)
                    if b.facts.assume(res, "eq" if at else "ne", 0) is not False: outs.append(b)
                    return outs
                return None
            if o: st.rs = s.setit(rs, a, (cc, "lost", cid)); return None
        if re.search(r"^std::operator(==|!=)$", c) and s.kind == "stop" and any(x[0] == "call" and (x[2] or "").endswith("thread_get_current_id") for x in map(norm, args)) and any(s.elemof(x) == "pool" for x in args):
            at = "ne" if "==" in c else "eq"; na = "eq" if "==" in c else "ne"
            return s.split(st, [(rs._replace(rej=True), res, [(at, 0)]), (s.mark(rs, "pool", "other"), res, [(na, 0)])])
        if c == "cyclone::Packet::get_packet_id" and s.mid is not None:
            return [] if st.facts.assume(res, "eq", s.mid) is False else None
        if c.startswith("cyclone::WorkThread::send_message"): return s.send(st, I, W, args, res)
        if c == "cyclone::WorkThread::join":
            r = s.recv(args[0])
            if r and r[0] == "master":
                s.ck(not rs.done & {"pool"} and not s.fl(rs, "pool"), "C27", "join waits for the acceptor before the workers", I, "workers first", W); s.emit(st, "join:master")
            elif r and s.elemof(r[1]) == "pool":
                s.ck("join:master" in rs.ev, "C27", "join waits for the acceptor before the workers", I, "worker joined first", W) if "nomaster" not in rs.ev else None
                st.facts.assume(norm(r[1]), "ne", 0)
                st.rs = s.mark(rs, "pool", "joined")
            return None
        if c == "cyclone::WorkThread::start":
            r = s.recv(args[0])
            if r and r[0] == "master" and s.kind == "start":
                s.ck("pool" in rs.done, "C28", "the acceptor starts when the pool is complete", I, "started with workers missing", W); s.emit(st, "start:master")
            return None
        if c == "cyclone::Looper::push_stop_request": return s.stopreq(st, I, W)
        if c == "cyclone::Looper::register_event" and s.kind == "probe":
            v = norm(args[1]); b = s.elembase(v)
            if v[0] == "ld" and b is not None: s.probe[1].append(key(v[2], b))
            return None
        if s.kind == "probe" and c in ("cyclone::Looper::delete_event", "cyclone::socket_api::close_socket"):
            k = 1 if c.endswith("close_socket") else 0
            v = norm(args[-1]); b = s.elembase(v)
            if v[0] == "ld" and b is not None: s.probe[k].append(key(v[2], b))
            return None
        if c == "cyclone::Looper::register_event" and s.kind == "start_cb":
            s.ck(s.val(args[1]) == "sock", "C21", "an acceptor's event belongs to its own socket", I, fmt(args[1]), W)
            s.ck(rs.pend is None, "C21", "the id an acceptor remembers is that of its own registration", I, "a registration is forgotten", W)
            st.rs = rs._replace(pend=res); s.emit(st, "reg"); return None
        if c == "cyclone::Looper::delete_event":
            p = s.val(args[1]); fl = s.fl(rs, "acc"); s.named1(st, I, W)
            s.ck(p == "ev" and fl & {"ev:valid", "ev:reg"}, "C21", "an acceptor's event is deleted once, when it is registered", I, "deletes %s" % (", ".join(sorted(fl)) or fmt(args[1])), W)
            if p == "ev": st.rs = s.mark(rs, "acc", "ev:dead", drop=[x for x in fl if x.startswith("ev:")])
            return None
        if c == "cyclone::socket_api::close_socket":
            if norm(args[0]) == rs.acc and rs.acc is not None:
                s.ck(rs.sent == 0, "C20", "an accepted socket is handed over or closed, once", I, "closed although already handed over or closed", W)
                st.rs = rs._replace(sent=min(rs.sent + 1, 2)); return None
            p = s.val(args[0])
            if p:
                fl = s.fl(rs, "acc"); s.named1(st, I, W)
                s.ck(p == "sock" and "sock:valid" in fl, "C20", "a listening socket is closed once, when it is open", I, "closes with %s" % (", ".join(sorted(fl))), W)
                if s.kind != "dtor": s.ck(fl & {"ev:dead", "ev:inv"}, "C21", "the event is deleted before the socket is closed", I, "closed with its event registered", W)
                st.rs = s.mark(rs, "acc", "sock:closed", drop=[x for x in fl if x.startswith("sock:")])
            elif s.kind in ("master", "accept", "dtor", "listen"): s.ck(False, "C20", "a listening socket is closed once, when it is open", I, "closes %s" % fmt(args[0]), W)
            return None
        if c == "cyclone::socket_api::accept":
            s.ck(rs.acc is None, "C20", "an accepted socket is handed over or closed, once", I, "a second accept forgets the first", W)
            s.emit(st, "accept"); rs = st.rs
            return s.split(st, [(rs._replace(acc=res, cnt=1), res, [("eq", -1)]), (rs._replace(acc=res, cnt=2), res, [("ne", -1)])])
        if c == CN + "::shutdown":
            w = s.conn(rs, args[0])
            s.ck(rs.stv == 1 and w == "elem", "C28", "a worker only shuts down a connection that is connected", I, "state %s" % rs.stv, W)
            s.emit(st, "shutdown")
            st.rs = s.mark(st.rs, "conn", "shut")._replace(stv=None); return None
        mk = re.search(r"^std::make_shared<cyclone::TcpConnection\b|allocate_shared<cyclone::TcpConnection\b", c)
        if mk and s.kind == "work": return s.create(st, I, W, args)
        if SPCTOR.search(c) and args[0][0] in ("alloca", "arg") and len(args) > 1:
            w = s.conn(rs, args[1])
            if args[0][0] == "alloca": st.rs = s.setsrc(rs, args[0][1], w)
            return None
        if FCALL.search(c): return s.user(st, I, W, args)
        if FTEST.search(c):
            a = next((x for x in args if fieldof(x, LIS)[0]), None)
            if a is not None:
                n = fieldof(a, LIS)[0]
                neg = "operator==" in c
                return s.split(st, [(rs, res, [("eq" if neg else "ne", 0)]), (rs._replace(ev=rs.ev + ("none:" + n,)), res, [("ne" if neg else "eq", 0)])])
            return None
        if re.search(r"^std::bind<\w+ \(cyclone::TcpServer::\*\S*\)\(int\b", c) and s.kind == "work":
            vs = [norm(s.content(st, a) or a) for a in args]
            s.ck(any(fieldof(v[2] if v[0] == "ld" else v, WT)[0] == "m_index" for v in vs), "C28", "the user is given the index of the worker", I, "bound to another value", W)
            return None
        if re.search(r"^std::function<.*>::operator=(<.*>)?$", c):
            n, o = fieldof(args[0], CN)
            if n: s.emit(st, "set:" + n)
            return None
        if c.startswith("std::make_pair") or c.startswith("std::pair<"):
            if args and args[0][0] == "alloca" and len(args) >= 3: s.pair(st, args)
            return None
        if c == WT + "::~TcpServerWorkThread" and s.kind == "join":
            s.ck("joined" in s.fl(rs, "pool") or "all:joined" in rs.ev, "C27", "a thread object is freed only after its thread was joined", I, "freed first", W)
            st.rs = s.mark(rs, "pool", "deleted"); return None
        return None
    # ---- containers
    def contcall(s, st, I, W, k, m, args, res):
        rs = st.rs
        if m in ("operator[]", "at"):
            if k == "conn": 
                s.ck(s.kind == "work", "C28", "the table is only changed by its own worker", I, m, W)
                s.ck(s.keyok(st, args[1]), "C28", "a connection is recorded under its own id", I, m, W)
                s.emit(st, "insert"); return None
            if s.kind != "fwd": s.ck(s.inrange(st, W, args[1], k), "C28", "an element is only used inside the bounds of its container", I, "index %s of the %ss" % (fmt(args[1]), NAMES[k]), W)
            s.elem[I.i] = k; s.elemix[I.i] = norm(args[1])
            if k == "acc" and s.frommsg(norm(args[1])): st.rs = s.mark(st.rs, "acc", "named")
            return None
        if m in ("front", "back"): s.elem[I.i] = k; return None
        if m == "empty" or m == "size":
            if k == "conn":
                if m == "size": return s.split(st, [(rs._replace(cnt=4), res, [("eq", 0)]), (rs._replace(cnt=5), res, [("ne", 0)])])
                return s.split(st, [(rs._replace(cnt=4), res, [("ne", 0)]), (rs._replace(cnt=5), res, [("eq", 0)])])
            return None
        if m in ("clear", "erase", "push_back", "emplace_back", "insert", "emplace", "insert_or_assign", "try_emplace", "pop_back", "resize", "swap", "assign", "operator="):
            loop = [a for a, (c, ph, i) in rs.its if c == k and ph in ("elem", "pos") and self_loop(s, rs, a)]
            s.ck(not loop or k in rs.done, "C28", "a container is not changed while it is walked", I, "%s of the %ss" % (m, NAMES[k]), W)
            if k == "acc":
                if m in ("clear", "erase", "pop_back", "resize", "swap", "assign", "operator="):
                    s.ck("acc" in rs.done and m == "clear", "C20", "a listening socket is closed before it is forgotten", I, m, W)
                    st.rs = rs._replace(stale=False)
                s.emit(st, "acc:" + m)
            elif k == "pool":
                if m in ("push_back", "emplace_back"): st.rs = rs._replace(sent=min(rs.sent + 1, 2))
                s.emit(st, "pool:" + m)
            else:
                s.ck(s.kind == "work", "C28", "the table is only changed by its own worker", I, m, W)
                if m == "erase":
                    a = args[1]; v = s.content(st, a)
                    good = s.named(st, a) or v is not None and v[0] == "ld" and fieldof(v[2], CN)[0] == "m_id" and s.conn(rs, fieldof(v[2], CN)[1]) == "elem" or any(x[0] == "call" and meth(x[2] or "") == "find" for x in list(subexprs(a)) + (list(subexprs(v)) if v else []))
                    its = [s.it(rs, x[1]) for x in list(subexprs(a)) + (list(subexprs(v)) if v is not None else []) if x[0] == "alloca"]
                    good = good or any(x and x[1] == "elem" and meth(s.f.ins[x[2]].callee or "") == "find" for x in its)
                    good = good or a[0] == "fld" and fieldof(a, CN)[0] == "m_id" and s.conn(rs, a) == "elem"
                    s.ck(good, "C28", "the entry that is removed is that of the closed connection", I, fmt(v or a), W)
                    s.ck(rs.stv == 3, "C28", "an entry is removed only once its connection is disconnected", I, "state %s" % rs.stv, W)
                    s.emit(st, "erase")
                    st.rs = st.rs._replace(cnt=0)
                elif m in ("insert", "emplace", "try_emplace", "insert_or_assign"):
                    s.ck(s.insok(st, m, args), "C28", "a connection is recorded under its own id", I, m, W); s.emit(st, "insert")
                else: s.ck(False, "C28", "an entry is removed only once its connection is disconnected", I, m, W)
            return None
        if m == "find" and s.kind == "work": s.ck(s.named(st, args[1]), "C28", "the connection that is closed is the one that was named", I, fmt(args[1]), W)
        if m in ("count", "contains") and k == "conn":
            return s.split(st, [(rs._replace(cnt=3), res, [("eq", 0)]), (rs, res, [("ne", 0)])])
        return None
    def content(s, st, a):
        """what a local variable whose address is passed holds"""
        if a[0] != "alloca": return None
        for k, v in st.mem.items():
            if ralloca(k) == a[1]: return norm(v)
        return None
    def isid(s, st, v):
        """v is the id of the new connection"""
        if v is None: return False
        v = norm(v)
        if st.rs.key is not None and v == st.rs.key: return True
        return v[0] == "ld" and fieldof(v[2], CN)[0] == "m_id" and s.conn(st.rs, fieldof(v[2], CN)[1]) == "new"
    def pair(s, st, args):
        ids = [a for a in args[1:] if s.isid(st, s.content(st, a) or a) or s.isid(st, a)]
        cn = [a for a in args[1:] if s.conn(st.rs, a) == "new"]
        st.rs = s.setsrc(st.rs, args[0][1], "pair" if ids and cn else None)
    def keyok(s, st, a): return s.isid(st, s.content(st, a))
    def insok(s, st, m, args):
        if m == "insert": return args[-1][0] == "alloca" and s.src(st.rs, args[-1][1]) == "pair"
        ks = [a for a in args[1:] if s.isid(st, s.content(st, a)) or s.isid(st, a) or a[0] == "fld" and fieldof(a, CN)[0] == "m_id"]
        return bool(ks) and any(s.conn(st.rs, a) == "new" for a in args[1:]) or args[-1][0] == "alloca" and s.src(st.rs, args[-1][1]) == "pair"
    def inrange(s, st, W, ix, k):
        ix = norm(ix)
        if ix[0] == "bin" and ix[1] == "urem":
            d = norm(ix[3])
            if k == "pool" and d[0] == "ld" and fieldof(d[2], SV)[0] == "m_workthread_counts": return True
            if d[0] == "call" and cont(d[2]) == k and meth(d[2]) == "size": return True
        if "idx" in s.fl(st.rs, k) and "over" not in s.fl(st.rs, k): return True
        for kk, x, p in st.rs.news:
            if kk == k and x == ix and (p == "ult" or st.facts.get(ix)[0] >= 0): return True
        for e, (lo, hi, ex) in st.facts.m.items():
            if e[0] == "cmp" and lo == hi and norm(e[2]) == ix:
                b = norm(e[3]); p = e[1] if lo else NEG[e[1]]
                sz = b[0] == "call" and cont(b[2]) == k and meth(b[2]) == "size" or k == "pool" and b[0] == "ld" and fieldof(b[2], SV)[0] == "m_workthread_counts"
                if sz and (p == "ult" or p == "slt" and st.facts.get(ix)[0] >= 0): return True
        return False
    # ---- commands
    def send(s, st, I, W, args, res):
        rs = st.rs; r = s.recv(args[0])
        if s.kind == "fwd":
            mine = [argx(s.f, k) for k in range(len(s.f.args)) if argx(s.f, k) != s.this]
            got = [norm(x) for x in args[1:]]
            if r and r[0] == "worker":
                b = s.elembase(r[1]); ix = s.elemix.get(b[1]) if b is not None else None
                while ix is not None and ix[0] == "cast": ix = ix[2]
                s.ck(ix is not None and ix == mine[0], "C28", "a user's message goes to the thread that was named", I, "to worker %s" % (fmt(ix) if ix else fmt(r[1])), W)
                mine = mine[1:]
            else: s.ck(r is not None, "C28", "a user's message goes to the thread that was named", I, "to %s" % fmt(args[0]), W)
            s.ck(got[:len(mine)] == mine and all(x == ('const', 0) for x in got[len(mine):]), "C28", "a user's message is sent unchanged", I, ", ".join(fmt(x) for x in got), W)
            s.emit(st, "sent"); return None
        mid = cst(norm(args[1])) if len(args) > 2 and args[1][0] == "const" else None
        if r is None or mid is None:
            if s.kind in ("accept", "stop", "stop_listen", "shutconn", "onclose"): s.ck(False, "C27" if s.kind.startswith("stop") else "C28", "a command goes to the thread it is meant for", I, "to %s" % fmt(args[0]), W)
            return None
        to, who = r; s.told[(s.kind, to, mid)] = 1
        role = s.roles.get((to, mid)); size = cst(args[2]); buf = args[3] if len(args) > 3 else None
        need = s.roles.get((to, mid, "size"), 0)
        if role: s.ck(size is not None and size >= need, "C28", "a command carries everything its handler reads", I, "%s bytes, the handler reads %d" % (size, need), W)
        if s.kind == "accept":
            s.ck(to == "worker" and role == "NEW" and s.elemof(who) == "pool", "C28", "an accepted socket is given to a worker of the pool", I, "command %s to the %s" % (role or mid, to), W)
            s.ck(rs.cnt == 2 and s.content(st, buf) == rs.acc, "C20", "an accepted socket is handed over or closed, once", I, "hands over %s" % fmt(s.content(st, buf) or ("const", 0)), W)
            s.ck(rs.sent == 0, "C20", "an accepted socket is handed over or closed, once", I, "handed over twice", W)
            s.emit(st, "handed"); rs = st.rs
            return s.split(st, [(rs._replace(sent=min(rs.sent + 1, 2)), res, [("ne", 0)]), (rs, res, [("eq", 0)])])
        if s.kind == "stop":
            s.ck(to == "master" and role == "SHUT" and rs.cnt == 1, "C27", "stopping sends one shutdown command to the acceptor", I, "command %s to the %s" % (role or mid, to), W)
            return s.lost(st, I, W, res, "shutdown command to the acceptor", lambda b: s.emit(b, "sent"))
        if s.kind == "master" and s.elemof(who) == "pool":
            s.ck(role == "SHUT", "C27", "every worker receives exactly one shutdown command", I, "command %s" % (role or mid), W)
            fl = s.fl(rs, "pool"); s.seen.add("sent")
            s.ck("acc" in rs.done, "C27", "workers shut down after the last accepted connection", I, "before the listening sockets are closed", W)
            def good(b): b.rs = s.mark(b.rs, "pool", "shut2" if "shut1" in fl else "shut1", drop=("shutlost",))
            def bad(b): b.rs = s.mark(b.rs, "pool", "shutlost")
            return s.lost(st, I, W, res, "shutdown command to a worker", good, bad)
        if s.kind == "stop_listen":
            s.ck(to == "master" and role == "LISTEN", "C27", "stopping to listen is done by the acceptor", I, "command %s to the %s" % (role or mid, to), W)
            v = s.content(st, buf) if buf is not None else None
            while v is not None and v[0] == "cast": v = v[-1]
            s.ck(v is not None and v[0] == "arg" and v != s.this, "C27", "stopping to listen closes the socket that was named", I, "sends %s" % (fmt(v) if v else "nothing"), W)
            s.emit(st, "sent"); return None
        if s.kind in ("shutconn", "onclose"):
            ow = norm(who)
            own = ow[0] == "ld" and fieldof(ow[2], CN)[0] == "m_owner" and s.conn(rs, fieldof(ow[2], CN)[1]) == "arg"
            s.ck(to == "worker" and role == "CLOSE" and own, "C28", "a closing connection is reported to the worker that owns it", I, "command %s to %s" % (role or mid, fmt(who)), W)
            v = s.content(st, buf) if buf is not None else None
            s.ck(v is not None and v[0] == "ld" and fieldof(v[2], CN)[0] == "m_id" and s.conn(rs, fieldof(v[2], CN)[1]) == "arg", "C28", "a closing connection is reported under its own id", I, "%s" % (fmt(v) if v else "nothing"), W)
            return s.lost(st, I, W, res, "close command to a worker", lambda b: s.emit(b, "sent"))
        return None
    def lost(s, st, I, W, res, what, ok, bad=None):
        """a command that must arrive: both outcomes of putting it into the queue"""
        s.hit["must"] = s.hit.get("must", 0) + 1; s.where_lost = getattr(s, "where_lost", {}); s.where_lost[what] = I
        b = st.copy(); outs = []
        ok(st); st.rs = st.rs._replace(pend2=None)
        if st.facts.assume(res, "ne", 0) is not False: outs.append(st)
        b.rs = b.rs._replace(pend2=what)
        if bad: bad(b)
        if b.facts.assume(res, "eq", 0) is not False: outs.append(b)
        return outs
    def stopreq(s, st, I, W):
        rs = st.rs
        s.emit(st, "stopreq")
        if s.kind == "work":
            s.ck(rs.cnt == 4, "C27", "a worker quits only when it has no connection left", I, "stop requested without looking at the table", W)
            s.ck(s.shutting(st), "C27", "a worker quits only after shutdown has begun", I, "stop requested", W)
        return None
    def shutting(s, st): return "flag1" in st.rs.ev or any(e.startswith("flag:") and e.endswith("=1") for e in st.rs.ev)
    def create(s, st, I, W, args):
        rs = st.rs
        ids = [a for a in args[1:] if s.content(st, a) is not None and s.content(st, a) == rs.key] or [a for a in args[1:] if norm(a) == rs.key]
        s.ck(bool(ids), "C28", "a new connection gets a fresh id", I, "id does not come from the counter", W)
        s.ck(any(s.named(st, a) and not s.changed(st, a) for a in args[1:]), "C28", "a new connection gets the socket that was handed over", I, "", W)
        own = [a for a in args[1:] if s.content(st, a) == s.this or a == s.this]
        s.ck(bool(own), "C28", "a new connection belongs to the worker that creates it", I, "owner is not the worker", W)
        s.emit(st, "create")
        if args[0][0] == "alloca": st.rs = s.setsrc(st.rs, args[0][1], "new")
        return None
    def user(s, st, I, W, args):
        rs = st.rs; n, o = fieldof(args[0], LIS)
        if n is None: return None
        s.hit["cb:" + n] = s.hit.get("cb:" + n, 0) + 1
        if n in ("on_connected", "on_close", "on_message", "on_work_thread_command", "on_work_thread_start") and len(args) > 2:
            ix = norm(args[2])
            # an index that comes in as a parameter was put there where the callback was bound
            s.ck(ix[0] == "ld" and fieldof(ix[2], WT)[0] == "m_index" or ix[0] == "arg" and s.kind in ("onclose", "onmsg"), "C28", "the user is given the index of the worker", I, "%s: %s" % (n, fmt(ix)), W)
        if n in ("on_work_thread_command", "on_master_thread_command"):
            s.ck(args[-1][0] == "arg" and args[-1] != s.this, "C28", "the user is given the message that arrived", I, fmt(args[-1]), W)
        if n == "on_connected":
            s.ck("set:m_on_close" in rs.ev and "set:m_on_message" in rs.ev, "C28", "a new connection is wired up before the user sees it", I, "callbacks missing", W)
            s.ck(s.conn(rs, args[-1]) == "new", "C28", "the user is given the new connection", I, fmt(args[-1]), W)
        if n in ("on_close", "on_message"):
            s.ck(s.conn(rs, args[-1]) == "arg", "C28", "the user is given the connection that is concerned", I, fmt(args[-1]), W)
        s.emit(st, "user:" + n)
        return None
    # ---- ends
    def exit(s, st, I, W):
        rs = st.rs; ev = rs.ev; s.finals.append(ev)
        s.hit["exit"] = s.hit.get("exit", 0) + 1
        role = s.roles.get((s.kind_recv(), s.mid)) if s.mid is not None else None
        if rs.pend2:
            s.ck(False, "C28" if "close" in rs.pend2 else "C27", "a control command is never lost", s.where_lost[rs.pend2], rs.pend2 + " is dropped when the queue is full", W, key="lost command|" + rs.pend2)
        n = lambda e: ev.count(e) + (e == "sent" and rs.pend2 is not None)
        if s.kind == "start_cb":
            s.ck("acc" in rs.done and rs.pend is None, "C21", "every listening socket's event is registered and remembered", I, "returns before every socket was registered", W)
        if s.kind == "dtor": s.ck("acc" in rs.done or s.nomaster(st), "C20", "every listening socket is closed", I, "sockets of a server that never ran are left open", W)
        if s.kind == "master" and role == "SHUT":
            s.ck("acc" in rs.done, "C20", "every listening socket is closed", I, "returns before every socket was closed", W)
            s.ck("acc" in rs.done, "C21", "every listening socket's event is deleted", I, "returns before every event was deleted", W)
            s.ck(not rs.stale, "C20", "a closed listening socket is forgotten", I, "kept in the table", W)
            s.ck("pool" in rs.done, "C27", "every worker receives exactly one shutdown command", I, "returns before every worker was told", W)
            s.ck("stopreq" in ev, "C27", "the acceptor quits on shutdown", I, "no stop request", W)
        elif s.kind == "master" and role == "LISTEN":
            fl = s.fl(rs, "acc")
            if fl:
                s.ck("ev:inv" in fl, "C21", "an acceptor's event is deleted and forgotten", I, ", ".join(sorted(fl)), W)
                s.ck("sock:inv" in fl, "C20", "a closed listening socket is forgotten", I, ", ".join(sorted(fl)), W)
                s.hit["listen:elem"] = 1
        elif s.kind == "master":
            if s.mid >= s.roles["custom"]: s.ck(n("user:on_master_thread_command") + n("none:on_master_thread_command") == 1, "C28", "a user's message reaches the user's handler", I, "%d call(s)" % n("user:on_master_thread_command"), W)
            s.ck("stopreq" not in ev, "C27", "the acceptor quits only on shutdown", I, "command %s" % s.mid, W)
        if s.kind == "accept":
            if rs.acc is not None and rs.cnt == 1:
                s.ck(n("handed") == 0 and rs.sent == 0, "C25", "a failed accept changes nothing", I, "continues with the invalid socket", W)
                s.ck(n("stopreq") == 0 and not any(e.startswith("acc:") for e in ev), "C25", "a failed accept changes nothing", I, ", ".join(ev), W)
            elif rs.acc is not None: s.ck(rs.sent == 1, "C20", "an accepted socket is handed over or closed, once", I, "lost" if rs.sent == 0 else "handed over or closed twice", W)
        if s.kind == "stop":
            if rs.cnt == 1: s.ck(n("sent") == 1, "C27", "stopping sends one shutdown command to the acceptor", I, "%d sent" % n("sent"), W)
            else: s.ck(n("sent") == 0, "C27", "stopping sends one shutdown command to the acceptor", I, "sent by a caller that lost", W)
            if rs.rej: s.ck(n("claim") == 0 and n("sent") == 0, "C27", "a stop from a worker is rejected before anything is changed", I, "state changed", W)
            elif rs.cnt == 0: s.ck(s.already(st, W), "C27", "a stop is only ignored when the server is not running or is being stopped already", I, "returns without claiming the stop", W)
        if s.kind == "fwd": s.ck(n("sent") == 1 or n("sent") == 0 and s.nomaster(st), "C28", "a user's message is sent once", I, "%d sent" % n("sent"), W)
        if s.kind == "join":
            s.ck(s.ended(rs), "C27", "join waits for every thread", I, "returns early", W)
            s.ck("all:deleted" in ev, "C27", "every thread object is freed", I, "returns with some left", W)
            s.ck("norun" in ev, "C27", "a server that was joined can be destroyed", I, "still marked as running", W)
            s.ck("pool:clear" in ev, "C27", "freed threads are forgotten", I, "kept in the pool", W)
        if s.kind == "join": s.again.append((I, "shutreset" in ev))
        if s.kind == "start":
            v = W.truth(st, W.ev(st, I.o[0])) if I.o else None
            if v: s.again.append((I, "shutreset" in ev))
            if v: s.ck("start:master" in ev and rs.cnt == 1, "C28", "a server that says it started runs its acceptor", I, "acceptor not started", W)
            if rs.cnt == 2: s.ck(v is False and not any(e.startswith(("pool:", "start:")) for e in ev), "C28", "a running server is not started twice", I, "started again", W)
        if s.kind == "onmsg":
            s.ck(n("user:on_message") + n("none:on_message") == 1, "C28", "received bytes are reported to the user", I, "%d" % n("user:on_message"), W)
        if s.kind in ("shutconn", "onclose"):
            s.ck(n("sent") == 1, "C28", "a closed connection is always scheduled for removal", I, "%d command(s) sent" % n("sent"), W)
            if s.kind == "onclose": s.ck(n("user:on_close") + n("none:on_close") == 1, "C28", "the close of a connection is reported to the user once", I, "%d" % n("user:on_close"), W)
        if s.kind == "work":
            if role == "NEW":
                s.ck(n("create") == 1 and n("insert") == 1, "C28", "every accepted connection is recorded in its worker's table", I, "%d recorded" % n("insert"), W)
                s.ck(n("user:on_connected") + n("none:on_connected") == 1, "C28", "a new connection is reported to the user once", I, "%d" % n("user:on_connected"), W)
                s.ck(n("stopreq") == 0 and n("erase") == 0 and n("shutdown") == 0, "C28", "a new connection leaves the others alone", I, ", ".join(ev), W)
            elif role == "CLOSE":
                if rs.cnt == 3 and not n("erase"):
                    s.ck(n("shutdown") == 0 and n("insert") == 0, "C28", "an unknown id is ignored", I, ", ".join(ev), W)
                else:
                    s.ck((n("shutdown") == 1) == (s.started(rs) == 1), "C28", "closing shuts a connected connection down", I, "state %s: %d shutdown(s)" % (s.started(rs), n("shutdown")), W)
                    s.ck((n("erase") == 1) == (rs.stv == 3 and not n("shutdown")), "C28", "a disconnected connection leaves the table", I, "state %s: %d removal(s)" % (rs.stv, n("erase")), W)
                    if n("erase"): s.quits(st, I, W)
            elif role == "SHUT":
                s.ck(any(e.startswith("flag:") and e.endswith("=1") for e in ev), "C27", "a worker remembers that it shuts down", I, "not remembered", W)
                if rs.cnt == 4: s.ck("stopreq" in ev, "C27", "a worker without connections quits", I, "no stop request", W)
                elif rs.cnt == 5: s.ck("conn" in rs.done, "C27", "a worker that shuts down shuts down every open connection", I, "returns before all were looked at", W)
                else: s.ck(False, "C27", "a worker without connections quits", I, "the table is not looked at", W)
            else:
                if s.mid > max((k[1] for k in s.roles if isinstance(k, tuple) and k[0] == "worker"), default=1 << 20): s.ck(n("user:on_work_thread_command") + n("none:on_work_thread_command") == 1, "C28", "a user's message reaches the user's handler", I, "%d call(s)" % n("user:on_work_thread_command"), W)
                s.ck(not {"insert", "erase", "shutdown", "create", "stopreq"} & set(ev), "C28", "other messages only reach the user", I, ", ".join(ev), W)
    def started(s, rs): return 1 if "shutdown" in rs.ev or rs.stv == 1 else rs.stv
    def quits(s, st, I, W):
        rs = st.rs
        if "stopreq" in rs.ev: return
        s.ck("flag0" in rs.ev or rs.cnt == 5, "C27", "the last connection of a worker that shuts down ends it", I, "no stop request although none may be left", W)
    def already(s, st, W): return "notrunning" in st.rs.ev or "already" in st.rs.ev
    def nomaster(s, st): return "nomaster" in st.rs.ev
    def kind_recv(s): return {"master": "master", "work": "worker"}.get(s.kind)

def self_loop(s, rs, a):
    """iterator a walks its container (as opposed to having been found)"""
    c, ph, cid = s.it(rs, a)
    I = s.f.ins[cid] if cid < len(s.f.ins) else None
    return I is not None and meth(I.callee or "").lstrip("c") == "begin"

def analyse(ctx, prop):
    P = ctx.program("prim", cppflags=("-DNDEBUG",))
    n = {}; hits = {}
    def sink(ok, pr, rule, where, detail, W, key=None):
        if pr != prop: return
        n[rule] = n.get(rule, 0) + 1
        if ok: ctx.ok(rule, where, detail)
        else: ctx.bad(rule, where, detail, W.trace(), key=key or "%s|%s" % (rule, detail.split(":")[0]))
    quiet = lambda *a: None; gone = []
    def attempt(f, r):
        W = Walker(f, r, pure=SPURE)
        try: W.run()
        except Vanished as e:
            if str(e) not in gone: gone.append(str(e))
        return W
    R = [f for f in roots(P) if f.base.startswith((SV + "::", MT + "::", WT + "::", "cyclone::TcpServer"))]
    calls = {f.base: {I.callee or "" for I in f.calls()} for f in R}
    def pick(cls, *cs): return [f for f in R if f.base.startswith(cls + "::") and any(any(x.startswith(c) for x in calls[f.base]) for c in cs) and "$_" not in f.base and "{" not in f.base]
    master = [f for f in pick(MT, "cyclone::Packet::get_packet_id")]
    work = [f for f in pick(WT, "cyclone::Packet::get_packet_id")]
    accept = [f for f in R if "cyclone::socket_api::accept" in calls[f.base]]
    started = pick(MT, "cyclone::Looper::register_event")
    def named(k): return [f for f in R if f.base == SV + "::" + k]
    dtor = [f for f in named("~TcpServer") if SV + "::~TcpServer" not in calls[f.base]]
    # which part of an acceptor's entry is the event id and which the socket: what the uses agree on
    ctx.need(len(started), 1, "registration of the listening sockets")
    votes = [[], []]
    for f in started + [f for f in R if calls[f.base] & {"cyclone::Looper::delete_event", "cyclone::socket_api::close_socket"}]:
        r = Srv(f, quiet, "probe"); attempt(f, r)
        for k in (0, 1): votes[k] += r.probe[k]
    keys = tuple(max(sorted(set(v), key=str), key=v.count) if v else None for v in votes)
    ctx.need(1 if None not in keys and keys[0] != keys[1] else 0, 1, "the entries of the listening sockets")
    cust = P.constglob("_ZN7cyclone16vp_custom_masterE")
    ctx.need(1 if cust and cust[0] == "const" else 0, 1, "first id of the user's messages to the acceptor")
    roles = {"flag": set(), "custom": cust[1]}; told = {}
    IDS = list(range(0, 13)) + [1000]
    lam = {}
    for kind, to, fs in (("work", "worker", work), ("master", "master", master)):
        for f in fs:
            for m in IDS:
                r = Srv(f, quiet, kind, m, dict(roles), keys); attempt(f, r)
                x = r.seen; role = None; told.update(r.told)
                if kind == "work":
                    if "create" in x: role = "NEW"
                    elif any(e.startswith("flag:") for e in x):
                        role = "SHUT"; roles["flag"] |= {e[5:].split("=")[0] for e in x if e.startswith("flag:")}
                    elif "shutdown" in x or "erase" in x: role = "CLOSE"
                else:
                    if "stopreq" in x: role = "SHUT"
                    elif r.elem and not x & {"sent"}: role = "LISTEN"
                if role: roles[(to, m)] = role; roles[(to, m, "size")] = r.reads
    # a handler that no longer does what marks it is recognised by who sends its command
    for k, kind in (("stop", "stop"), ("stop_listen", "stop_listen"), ("shutdown_connection", "shutconn")):
        for f in named(k): r = Srv(f, quiet, kind, None, {}, keys); attempt(f, r); told.update(r.told)
    for f in accept: r = Srv(f, quiet, "accept", None, {}, keys); attempt(f, r); told.update(r.told)
    have = {(k[0], v) for k, v in roles.items() if len(k) == 2}
    for (kind, to, m), _ in sorted(told.items()):
        w = {("stop", "master"): "SHUT", ("stop_listen", "master"): "LISTEN", ("shutconn", "worker"): "CLOSE", ("accept", "worker"): "NEW", ("master", "worker"): "SHUT"}.get((kind, to))
        if w and (to, w) not in have and ((to, m) not in roles or sum(1 for k, v in roles.items() if len(k) == 2 and k[0] == to and v == roles[(to, m)]) > 1): roles[(to, m)] = w; roles[(to, m, "size")] = 0
    for t, w in (("worker", "NEW"), ("worker", "CLOSE"), ("worker", "SHUT"), ("master", "SHUT"), ("master", "LISTEN")):
        ctx.need(sum(1 for k, v in roles.items() if len(k) == 2 and k != "flag" and k[0] == t and v == w), 1, "handler of the %s's %s command" % (t, w))
    # the functions stored in a connection's callbacks
    todo = [(f, "master", m) for f in master for m in IDS] + [(f, "work", m) for f in work for m in IDS]
    todo += [(f, "accept", None) for f in accept] + [(f, "start_cb", None) for f in started] + [(f, "dtor", None) for f in dtor]
    for k, kind in (("stop", "stop"), ("join", "join"), ("start", "start"), ("stop_listen", "stop_listen"), ("shutdown_connection", "shutconn"), ("send_master_message", "fwd"), ("send_work_message", "fwd")): todo += [(f, kind, None) for f in named(k)]
    lams = [f for f in P.fns.values() if f not in R and f.base.startswith("cyclone::TcpServer") and f.base.endswith("operator()")]
    for f in R + lams:
        fc = [fieldof(static_ev(f, I.o[0]), LIS)[0] for I in f.calls() if FCALL.search(I.callee or "") and I.o]
        sets = "on_close" in fc, "on_message" in fc
        if sets[0]: todo.append((f, "onclose", None))
        if sets[1]: todo.append((f, "onmsg", None))
    todo += [(f, "table", None) for f in R if f.base.startswith(WT + "::") and f not in work and any(cont(c) == "conn" for c in calls[f.base])]
    done = set(); again = {"join": [], "start": []}
    for f, kind, m in todo:
        r = Srv(f, sink, kind, m, roles, keys); W = attempt(f, r)
        if kind in again: again[kind] += r.again
        for k, v in r.hit.items(): hits[k] = hits.get(k, 0) + v
        hits["kind:" + kind] = hits.get("kind:" + kind, 0) + 1; done.add(f.base)
    for f, kind, m in todo:
        if roles.get((kind, m)) == "LISTEN": sink(hits.get("listen:elem", 0) > 0, "C27", "stopping to listen closes the socket that was named", f.base.replace("cyclone::", ""), "%s: no path closes a socket" % f.short(), W)
    ends = again["join"]
    if ends:
        ok = all(x for _, x in ends) or again["start"] and all(x for _, x in again["start"])
        sink(ok, "C27", "a server started again can be stopped again", next((i for i, x in ends if not x), ends[0][0]).where(), "TcpServer::join: the request to stop is still remembered when the server starts again", W)
    if gone: raise Vanished("; ".join(gone))
    ctx.cover["functions of the server"] = len(done)
    ctx.cover["server functions"] = ", ".join(sorted(d.replace("cyclone::", "")[:70] for d in done))
    ctx.cover["commands"] = ", ".join("%s %d: %s (reads %d bytes)" % (k[0], k[1], v, roles[k + ("size",)]) for k, v in sorted((k, v) for k, v in roles.items() if isinstance(k, tuple) and len(k) == 2))
    ctx.assumption("stop, join and the listening functions are used as their assertions demand; workers handle their commands one at a time in the order sent (C16)")
    return P, hits, n
