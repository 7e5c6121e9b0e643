"""Typestate of a TCP connection (C21-C25): what every path through every
function of the connection does to its state, lock, buffer, event and socket."""
import re
from collections import namedtuple
from evt import *
from ir import State

TC = "cyclone::TcpConnection"
CONNECTED, DISCONNECTING, DISCONNECTED = 1, 2, 3
ALL = frozenset((1, 2, 3)); LIVE = frozenset((1, 2))
INVALID = (-1, 0xffffffff)
SP = r"std::(__)?shared_ptr<[^()]*>::"
NPURE = re.compile(PUREV.pattern + r"|^cyclone::(RingBuf::|socket_api::|sys_api::|disk_log|Address::|Packet::)"
                   r"|^cyclone::Looper::(is_write|is_read|enable_write|disable_write|enable_read|disable_read|disable_all|delete_event|register_event|register_timer_event|push_stop_request)$"
                   r"|^cyclone::(MinMaxValue|PeriodValue)<.*>::|shared_from_this$|^" + SP + r"|^std::(__)?shared_ptr<|^std::__shared_ptr_access|^std::operator(==|!=)|^std::make_shared|^std::function<.*>::(~?function|operator=|swap)"
                   r"|^std::bind|^memcpy$|^memset$|^std::unordered_map<|^std::pair<|^std::make_pair|^std::(__detail::|__cxx11::)|^__errno_location$|^std::allocator")
SHARED = re.compile(r"shared_from_this$")
SPCTOR = re.compile(r"^std::shared_ptr<.*>::(shared_ptr|operator=)(<.*>)?$")
SPDTOR = re.compile(r"^std::shared_ptr<.*>::~shared_ptr$")

def cst(v): return v[1] if v[0] == "const" else None
def lin(e):
    """linear form {atom: coefficient}, constant under None"""
    k = e[0]
    if k == "const": return {None: e[1]}
    if k == "bin" and e[1] in ("add", "sub"):
        a, b = lin(e[2]), lin(e[3]); s = 1 if e[1] == "add" else -1
        for x, c in b.items(): a[x] = a.get(x, 0) + s * c
        return a
    if k == "idx":
        a, b = lin(e[1]), lin(e[2])
        for x, c in b.items(): a[x] = a.get(x, 0) + c
        return a
    if k == "off":
        a = lin(e[1]); a[None] = a.get(None, 0) + e[2]; return a
    if k == "cast": return lin(e[2])
    return {e: 1}
def linsub(a, b):
    a = dict(a)
    for x, c in b.items(): a[x] = a.get(x, 0) - c
    return {x: c for x, c in a.items() if c}
def signed(v):
    return v - (1 << 64) if v is not None and v >= 1 << 63 else v
def iszero(st, l):
    """the linear form is known to be zero on this path"""
    l = {x: c for x, c in l.items() if c}
    if not l: return True
    k = l.pop(None, 0)
    if len(l) == 1:
        (x, c), = l.items(); lo, hi, _ = st.facts.get(x)
        if lo == hi and c * lo + k == 0: return True
    l[None] = k
    for e in list(st.facts.m):
        lo, hi, _ = st.facts.get(e)
        if lo != hi or e[0] not in ("bin", "ld", "call", "arg", "val", "phi"): continue
        le = lin(e)
        for s in (1, -1):
            d = dict(l)
            for x, c in le.items(): d[x] = d.get(x, 0) - s * c
            d = {x: c for x, c in d.items() if c}
            if not d and lo == 0: return True
            if set(d) == {None} and d[None] == -s * lo * 1 and False: return True
    return False

RS = namedtuple("RS", "S loop held buf wi seq io wb app owed keep cbd cbs ran asked drained ext refused locs flushed uid")
START = RS(ALL, None, 0, "U", "U", (), None, "U", (), False, frozenset(), False, (), frozenset(), False, False, False, False, (), False, None)

class Conn(R0):
    """one function of the connection; emits (property, rule) obligations to sink"""
    keep_locals = True
    def __init__(s, f, sink, S, loop, kind):
        s.f = f; s.sink = sink; s.S0 = S; s.loop0 = loop; s.kind = kind; s.hit = {}
        s.this = argx(f, 0); s.name = f.short()
    def ck(s, c, prop, rule, I, what, W):
        s.hit[rule] = s.hit.get(rule, 0) + 1
        s.sink(c, prop, rule, I.where(), "%s: %s" % (s.name, what), W)
        return c
    def init(s): return START._replace(S=s.S0, loop=s.loop0)
    def keep_exprs(s, rs):
        out = []
        if rs.io: out.append(rs.io[1])
        for p, n in rs.app: out += [p, n]
        if rs.uid: out.append(rs.uid)
        return out
    def keepmem(s, k): return fieldof(k, TC)[0] in ("m_event_id", "m_socket") or k[0] == "alloca"
    # ---- helpers
    def member(s, e):
        m, o = fieldof(e, TC)
        return m if m and o == s.this else None
    def valof(s, e):
        """member whose value e is (loaded)"""
        while e[0] == "cast": e = e[2]
        return s.member(e[2]) if e[0] == "ld" else None
    def fwd(s, S): return frozenset(t for t in ALL for x in S if t >= x)
    def split(s, st, outs):
        r = []
        for rs, e, facts in outs:
            b = st.copy(); b.rs = rs; ok = True
            for p, k in facts:
                if b.facts.assume(e, p, k) is False: ok = False
            if ok: r.append(b)
        return r
    def setcb(s, rs, m, v): return rs._replace(cbs=tuple(sorted([(k, x) for k, x in rs.cbs if k != m] + [(m, v)])))
    def mayrun(s, rs):
        """user code may have run: it may have sent, shut down or closed"""
        live = "st" not in rs.seq
        return rs._replace(S=s.fwd(rs.S) if live else rs.S, buf="U", wi="U", cbd=True, cbs=() if live else rs.cbs)
    def thisuse(s, st, I, W):
        if I.op == "load": es = [W.ev(st, I.o[0])]
        elif I.op == "store": es = [W.ev(st, I.o[1])]
        elif I.op == "call": es = [W.ev(st, o) for o in I.o]
        elif I.op in ("cmpxchg", "atomicrmw"): es = [W.ev(st, I.o[0])]
        else: return False
        for e in es:
            while e[0] in ("fld", "idx", "off", "cast"): e = e[2] if e[0] == "cast" else e[1]
            if e == s.this: return True
        return False
    # ---- transfer
    def step(s, st, I, W):
        rs = st.rs
        if rs.cbd and not rs.keep and s.thisuse(st, I, W):
            s.ck(False, "C22", "a connection is kept alive while its code still uses it after a user callback", I, "member used after a callback that may release it", W)
        if rs.cbd and s.thisuse(st, I, W): s.ck(True, "C22", "a connection is kept alive while its code still uses it after a user callback", I, "", W)
        if I.op == "load":
            a = W.ev(st, I.o[0])
            if s.member(a) == "m_state":
                e = ("ld", I.i, a); st.facts.m.pop(e, None)
                if rs.loop is True or rs.held:
                    return s.split(st, [(rs._replace(S=frozenset((k,)), refused=rs.refused or k != CONNECTED), e, [("eq", k)]) for k in sorted(rs.S)])
                st.facts.assume(e, "sge", 0); st.facts.assume(e, "sle", 3)
                return s.split(st, [(rs._replace(refused=rs.refused or k != CONNECTED), e, [("eq", k)]) for k in (0, 1, 2, 3)])
            return None
        if I.op == "store":
            a = W.ev(st, I.o[1]); v = W.ev(st, I.o[0]); m = s.member(a)
            if m == "m_state": s.setstate(st, cst(v), I, W)
            elif m == "m_event_id":
                s.ck(v[0] == "const" and v[1] in INVALID and "del" in st.rs.seq, "C21", "the stored event id is only replaced by invalid, after its event was deleted", I, "stores %s" % fmt(v), W)
                if v[0] == "const" and v[1] in INVALID: st.rs = rs._replace(seq=rs.seq + ("inv",))
            elif m == "m_socket":
                s.ck(v[0] == "const" and v[1] in INVALID and "close" in st.rs.seq, "C22", "the stored socket is only replaced by invalid, after it was closed", I, "stores %s" % fmt(v), W)
                if v[0] == "const" and v[1] in INVALID: st.rs = rs._replace(seq=rs.seq + ("sinv",))
            elif m == "m_write_buf_lock":
                s.ck(False, "C23", "the send buffer's lock lives as long as the connection", I, "stores %s" % fmt(v), W)
            return None
        if I.op in ("atomicrmw", "cmpxchg"):
            if s.member(W.ev(st, I.o[0])) == "m_state":
                if I.op == "atomicrmw" and I.j["rmw"] == "xchg":
                    e = ("val", I.i); outs = []
                    for k in sorted(rs.S):
                        b = st.copy(); b.rs = rs._replace(S=frozenset((k,)))
                        if b.facts.assume(e, "eq", k) is False: continue
                        s.setstate(b, cst(W.ev(b, I.o[1])), I, W); outs.append(b)
                    return outs
                if I.op == "cmpxchg":
                    old, won = ("xv", ("val", I.i), (0,)), ("xv", ("val", I.i), (1,)); x = W.ev(st, I.o[1]); outs = []
                    for e in (old, won, ("val", I.i)): st.facts.m.pop(e, None)
                    for k in sorted(rs.S):
                        for w in (1, 0):
                            b = st.copy(); b.rs = rs._replace(S=frozenset((k,)))
                            if w and b.facts.assume(x, "eq", k) is False or w and x[0] == "const" and x[1] != k: continue
                            if not w and not I.j.get("weak") and (x == ("const", k) or b.facts.assume(x, "ne", k) is False): continue
                            if b.facts.assume(old, "eq", k) is False or b.facts.assume(won, "eq", w) is False: continue
                            if w: s.setstate(b, cst(W.ev(b, I.o[2])), I, W)
                            outs.append(b)
                    return outs
                raise Vanished("m_state is changed by a read-modify-write that is not modelled in %s" % s.f.base)
            return None
        if I.op != "call": return None
        return s.call(st, I, W)
    def setstate(s, st, k, I, W):
        rs = st.rs
        s.ck(k in (DISCONNECTING, DISCONNECTED) and rs.S <= LIVE and (k != DISCONNECTING or rs.S <= LIVE), "C22", "the state only moves forward", I,
             "state becomes %s from %s" % (k, sorted(rs.S)), W)
        s.ck(rs.loop is True, "C22", "the state is changed on the loop thread only", I, "state becomes %s" % k, W)
        s.ck(rs.held == 1, "C24", "the connection leaves the connected state under the send buffer's lock", I, "state becomes %s without the lock" % k, W)
        rs = rs._replace(S=frozenset((k,)))
        if k == DISCONNECTED: rs = rs._replace(seq=rs.seq + ("st",))
        st.rs = rs
    def buffer(s, st, I, W, what, write):
        rs = st.rs
        ok = rs.held == 1 or "st" in rs.seq and rs.loop is True
        s.ck(ok, "C23", "the send buffer is only touched while its lock is held", I, what, W)
    def call(s, st, I, W):
        rs = st.rs; c = I.callee or ""; args = [W.ev(st, o) for o in I.o]
        res = ("call", I.i, I.callee, tuple(args))
        st.facts.m.pop(res, None)
        m0 = s.member(args[0]) if args else None
        if re.search(r"^std::operator(==|!=)$", c) and len(args) == 2:
            a = [x for x in args]
            idc = [x for x in a if x[0] == "call" and x[2] == "cyclone::sys_api::thread_get_current_id"]
            own = [x for x in a if x[0] == "ld" and lpfield(x[2]) == "m_current_thread"]
            if idc and own and rs.loop is None:
                eq = c.endswith("==")
                return s.split(st, [(rs._replace(loop=True), res, [("ne" if eq else "eq", 0)]), (rs._replace(loop=False), res, [("eq" if eq else "ne", 0)])])
            return None
        if c in ("cyclone::sys_api::mutex_lock",) and s.valof(args[0]) == "m_write_buf_lock":
            st.rs = rs._replace(held=1, buf="U" if rs.buf != "N" or rs.loop is not True else "N", S=rs.S if rs.loop else s.fwd(ALL)); return None
        if c == "cyclone::sys_api::mutex_unlock" and s.valof(args[0]) == "m_write_buf_lock":
            if rs.owed and rs.loop is not True: s.ck(False, "C24", "appended bytes have write interest before the lock is released", I, "another thread released the lock first", W)
            elif rs.app: s.ck(True, "C24", "appended bytes have write interest before the lock is released", I, "", W)
            st.rs = rs._replace(held=0, buf="N" if rs.buf == "N" and rs.loop is True else "U" if rs.buf != "E" else "e", S=rs.S if rs.loop is True else ALL); return None
        if c == "cyclone::sys_api::mutex_destroy" and s.valof(args[0]) == "m_write_buf_lock":
            s.ck(False, "C23", "the send buffer's lock lives as long as the connection", I, "destroyed", W); return None
        if m0 == "m_write_buf" and c.startswith("cyclone::RingBuf::"):
            op = c.split("::")[-1]
            if op in ("empty", "size"):
                s.buffer(st, I, W, op, False)
                z = ("ne", 0) if op == "empty" else ("eq", 0); nz = ("eq", 0) if op == "empty" else ("ne", 0)
                out = []
                if rs.buf not in ("N",): out.append((rs._replace(buf="E"), res, [z]))
                if rs.buf not in ("E",): out.append((rs._replace(buf="N"), res, [nz]))
                return s.split(st, out)
            if op == "memcpy_into":
                s.buffer(st, I, W, "append", True)
                s.ck(rs.S == frozenset((CONNECTED,)), "C24", "bytes are only accepted while connected", I, "append in state %s" % sorted(rs.S), W)
                s.ck(rs.loop is True or rs.held == 1, "C23", "other threads append under the lock", I, "append", W)
                st.rs = rs._replace(buf="N", app=rs.app + ((args[1], args[2]),) if len(rs.app) < 3 else rs.app, owed=True); return None
            if op == "write_socket":
                s.buffer(st, I, W, "flush", True)
                s.ck(s.valof(args[1]) == "m_socket", "C23", "the buffer is flushed to the connection's own socket", I, fmt(args[1]), W)
                s.ck(rs.loop is True and "st" not in rs.seq and not rs.ext and rs.S <= LIVE, "C23", "the socket is only written by the loop thread while open", I, "flush", W)
                return s.split(st, [(rs._replace(buf="U" if g == "+" else "N" if rs.buf == "N" else rs.buf, io=("flush", res, g), wb="U", flushed=True), res, fx) for g, fx in (("+", [("sgt", 0)]), ("0", [("eq", 0)]), ("-", [("slt", 0)]))])
            if op == "reset":
                s.buffer(st, I, W, "reset", True)
                s.ck("st" in rs.seq, "C24", "buffered bytes are only discarded by closing", I, "reset", W)
                st.rs = rs._replace(buf="E"); return None
            if op in ("capacity", "get_free_size", "full"): s.buffer(st, I, W, op, False); return None
            s.buffer(st, I, W, op, True)
            s.ck(False, "C24", "buffered bytes are only discarded by closing", I, op, W); return None
        if m0 == "m_read_buf" and c == "cyclone::RingBuf::read_socket":
            s.ck(s.valof(args[1]) == "m_socket", "C25", "a connection reads from its own socket", I, fmt(args[1]), W)
            s.ck("st" not in rs.seq and not rs.ext and rs.S <= LIVE, "C22", "the socket is only used while open", I, "read", W)
            return s.split(st, [(rs._replace(io=("read", res, g), wb="U"), res, fx) for g, fx in (("+", [("sgt", 0)]), ("0", [("eq", 0)]), ("-", [("slt", 0)]))])
        if c == "cyclone::socket_api::write" and args and s.valof(args[0]) == "m_socket":
            s.ck(rs.loop is True and "st" not in rs.seq and not rs.ext and rs.S == frozenset((CONNECTED,)), "C24", "the socket is written directly only on the loop thread while connected", I, "state %s" % sorted(rs.S), W)
            s.ck(rs.held == 1 and rs.buf == "E", "C23", "a direct write needs an empty buffer under the lock", I, "direct write with buffer %s" % ("not known to be empty" if rs.held else "unlocked"), W)
            s.ck(rs.io is None and not rs.app, "C23", "each byte is given to the socket once", I, "second write", W)
            st.rs = rs = rs._replace(uid=("w",) and ("bin", "add", args[1], args[2]))
            s.ck(not linsub(lin(args[1]), lin(argx(s.f, 1) if len(s.f.args) > 1 else NULL)) and not linsub(lin(args[2]), lin(argx(s.f, 2) if len(s.f.args) > 2 else NULL)), "C23", "a direct write starts with the first byte to send", I, "writes (%s, %s)" % (fmt(args[1]), fmt(args[2])), W)
            return s.split(st, [(rs._replace(io=("write", res, g), wb="U"), res, fx) for g, fx in (("+", [("sgt", 0)]), ("0", [("eq", 0)]), ("-", [("slt", 0)]))])
        if c == "cyclone::socket_api::is_lasterror_WOULDBLOCK":
            if rs.io and rs.io[2] == "-":
                s.ck(rs.wb != "stale", "C25", "the error is examined before anything else can replace it", I, "would-block test", W)
                if rs.wb in ("yes", "no"): return s.split(st, [(rs, res, [("ne" if rs.wb == "yes" else "eq", 0)])])
                return s.split(st, [(rs._replace(wb="yes"), res, [("ne", 0)]), (rs._replace(wb="no"), res, [("eq", 0)])])
            return None
        if c == "cyclone::socket_api::get_lasterror":
            if rs.io and rs.io[2] == "-" and rs.wb != "stale":
                if rs.wb == "no": return s.split(st, [(rs, res, [("ne", 11), ("ne", 0)])])
                if rs.wb == "yes": return s.split(st, [(rs, res, [("eq", 11)])])
                return s.split(st, [(rs._replace(wb="yes"), res, [("eq", 11)]), (rs._replace(wb="no"), res, [("ne", 11), ("ne", 0)])])
            return None
        if c.startswith("cyclone::Looper::"):
            op = c.split("::")[-1]
            if op in ("is_write", "enable_write", "disable_write", "disable_all", "delete_event", "enable_read", "disable_read", "is_read"):
                own = s.valof(args[1]) == "m_event_id"
                dead = "del" in rs.seq or (args[1][0] == "const" and args[1][1] in INVALID)
                s.ck((own or dead) and not dead and not rs.ext, "C21", "only the connection's registered event is used", I, "%s(%s)%s" % (op, fmt(args[1]), " after its deletion" if dead or rs.ext else ""), W)
                if rs.S - LIVE and op != "delete_event": s.ck(False, "C21", "only the connection's registered event is used", I, "%s in state %s" % (op, sorted(rs.S)), W)
            if op == "is_write":
                if rs.wi in ("0", "1"): return s.split(st, [(rs, res, [("ne" if rs.wi == "1" else "eq", 0)])])
                return s.split(st, [(rs._replace(wi="1"), res, [("ne", 0)]), (rs._replace(wi="0"), res, [("eq", 0)])])
            if op == "enable_write":
                s.ck(rs.loop is True or rs.held and rs.S == frozenset((CONNECTED,)), "C24", "write interest is switched on while the event certainly exists", I, "state %s" % sorted(rs.S), W)
                st.rs = rs._replace(wi="1", owed=False); return None
            if op == "disable_write":
                s.ck(rs.held == 1 and rs.buf == "E", "C23", "write interest is switched off only under the lock with the buffer seen empty", I, "disable_write", W)
                if DISCONNECTING in rs.S: s.ck(rs.buf in ("E", "e") or rs.io is not None and rs.io[2] == "-" and rs.wb == "no", "C24", "a disconnecting connection keeps write interest until its buffer is empty", I, "disable_write with bytes that may be buffered", W)
                st.rs = rs._replace(wi="0", drained=rs.held == 1 and rs.buf == "E"); return None
            if op == "disable_all":
                s.ck(rs.wb == "no", "C25", "only a fatal socket error stops a connection's events", I, "disable_all", W)
                st.rs = rs._replace(wi="0"); return None
            if op in ("disable_read",):
                s.ck(rs.wb == "no", "C25", "only a fatal socket error stops a connection's events", I, op, W); return None
            if op == "delete_event":
                s.ck("st" in rs.seq and "del" not in rs.seq and rs.loop is True, "C22", "the event is deleted once, by the closing thread, after the state says disconnected", I, "delete_event", W)
                st.rs = rs._replace(seq=rs.seq + ("del",)); return None
            return None
        if c == "cyclone::socket_api::close_socket":
            if s.valof(args[0]) == "m_socket" or args[0][0] == "const":
                s.ck("del" in rs.seq and "inv" in rs.seq, "C21", "the event is deleted and its id invalidated before the socket is closed", I, "close", W)
                s.ck("close" not in rs.seq and not rs.ext and args[0][0] != "const", "C22", "the socket is closed once", I, "close", W)
                st.rs = rs._replace(seq=rs.seq + ("close",))
            return None
        if c.startswith("cyclone::socket_api::") and args and s.valof(args[0]) == "m_socket":
            s.ck("close" not in rs.seq and not rs.ext, "C22", "the socket is only used while open", I, c.split("::")[-1], W)
        if c == TC + "::shutdown" and args[0] == s.this:
            s.ck(rs.S <= LIVE and rs.loop is True, "C22", "an internal shutdown needs a live connection", I, "state %s" % sorted(rs.S), W)
            s.ck(rs.held == 0, "C23", "the lock is free when shutdown is called", I, "", W)
            if s.kind == "write":
                s.ck(rs.drained or rs.buf in ("E", "e") or rs.io is not None and rs.io[2] == "-" and rs.wb == "no", "C24", "only a fatal socket error may close with bytes buffered", I, "shutdown from the write handler before the buffer is empty", W)
            if rs.io and rs.io[0] in ("write", "flush") and rs.io[2] == "-" and not rs.ran:
                s.ck(rs.wb == "no", "C25", "a would-block error never closes a connection", I, "shutdown after a failed write", W)
            st.rs = rs._replace(S=frozenset((2, 3)), asked=True, cbd=True, ext=True, wi="U", buf="U", cbs=()); return None
        if c == TC + "::send" and args[0] == s.this:
            st.rs = s.mayrun(rs); return None
        if re.search(r"^cyclone::PeriodValue<.*>::push$", c) and s.valof(args[0]) in ("m_write_statistics", "m_read_statistics"):
            v = args[1]
            if v[0] in ("alloca", "fld"): v = st.mem.get(v, ("opaque", "?"))
            good = rs.io is not None and v == rs.io[1] and (rs.io[2] in "+0")
            kind = "read" if s.valof(args[0]) == "m_read_statistics" else "write"
            s.ck(good and (rs.io[0] == "read") == (kind == "read"), "C25", "statistics count exactly the bytes that were transferred", I, "pushes %s%s" % (fmt(v), "" if not rs.io or rs.io[2] != "-" else " of a failed transfer"), W)
            return None
        if FTEST.search(c):
            mm = next((s.member(x) for x in args if s.member(x)), None)
            if mm is None:
                mm = next((dict(rs.locs).get(x[1]) for x in args if x[0] == "alloca" and x[1] in dict(rs.locs)), None)
            if mm:
                neg = "operator==" in c
                known = dict(rs.cbs).get(mm)
                outs = []
                for v in ((known,) if known is not None else (1, 0)):
                    outs.append((s.setcb(rs, mm, v), res, [("ne" if bool(v) != neg else "eq", 0)]))
                return s.split(st, outs)
            return None
        if FCOPY.search(c) and len(args) > 1 and args[0][0] == "alloca":
            mm = s.member(args[1]) or (dict(rs.locs).get(args[1][1]) if args[1][0] == "alloca" else None)
            if mm: st.rs = rs._replace(locs=tuple(sorted([(k, v) for k, v in rs.locs if k != args[0][1]] + [(args[0][1], mm)])))
            return None
        if FCALL.search(c):
            mm = m0 or (dict(rs.locs).get(args[0][1]) if args[0][0] == "alloca" else None)
            if mm: return s.callback(st, mm, args, I, W)
            raise Vanished("%s calls a function object that is not a callback of the connection" % s.f.base)
        if SHARED.search(c):
            if args[0][0] == "alloca" and len(args) > 1 and args[1] == s.this: st.rs = rs._replace(keep=rs.keep | {args[0][1]})
            return None
        if SPCTOR.search(c) and len(args) > 1 and args[0][0] == "alloca":
            src = args[1][1] if args[1][0] == "alloca" else None
            st.rs = rs._replace(keep=(rs.keep | {args[0][1]}) if src in rs.keep else rs.keep - {args[0][1]}); return None
        if SPDTOR.search(c) and args[0][0] == "alloca":
            st.rs = rs._replace(keep=rs.keep - {args[0][1]}); return None
        if c == "cyclone::disk_log" and rs.io and rs.io[2] == "-" and rs.wb == "U":
            st.rs = rs._replace(wb="stale"); return None
        return None
    def callback(s, st, mm, args, I, W):
        rs = st.rs
        s.hit["cb:" + mm] = s.hit.get("cb:" + mm, 0) + 1
        s.ck(rs.loop is True, "C22", "callbacks run on the loop thread", I, mm, W)
        a = args[1] if len(args) > 1 else None
        s.ck(a is not None and a[0] == "alloca" and a[1] in rs.keep, "C22", "a callback is given a live reference to its own connection", I, mm, W)
        if mm == "m_on_close":
            s.ck({"st", "del", "inv"} <= set(rs.seq) and "close" not in rs.seq, "C22", "the close callback runs after the state and the event are gone and before the socket is", I, "steps so far: %s" % ",".join(rs.seq), W)
            s.ck("cb" not in rs.seq and not rs.ext, "C22", "the close callback runs once", I, "second invocation", W)
            rs = rs._replace(seq=rs.seq + ("cb",))
        else:
            s.ck("st" not in rs.seq and rs.S <= LIVE and not (rs.ext and rs.S - LIVE), "C22", "no callback runs after the close", I, "%s in state %s" % (mm, sorted(rs.S)), W)
            if mm == "m_on_message":
                s.ck(rs.io is not None and rs.io[0] == "read" and rs.io[2] == "+" or rs.io is None, "C25", "the message callback runs for received bytes", I, mm, W)
            if mm == "m_on_send_complete":
                s.ck(rs.drained, "C23", "send-complete is reported only when the buffer was seen empty", I, mm, W)
        rs = s.mayrun(rs)._replace(ran=rs.ran | {mm})
        st.rs = rs
        return None
    # ---- what every path must have achieved
    def exit(s, st, I, W):
        rs = st.rs; seq = rs.seq; cb = dict(rs.cbs)
        s.hit["exit"] = s.hit.get("exit", 0) + 1
        closed = "st" in seq
        if seq:
            want = {"st", "del", "inv", "close", "sinv"}
            miss = want - set(seq)
            s.ck(not miss, "C22", "a close runs to its end", I, "missing %s" % ", ".join(sorted({"st": "state", "del": "event deletion", "inv": "event id invalidation", "close": "closing the socket", "sinv": "socket invalidation"}[x] for x in miss)), W)
            s.ck(all(seq.count(x) == 1 for x in want - miss), "C22", "every close step runs once", I, ",".join(seq), W)
            s.ck("inv" in seq and "close" in seq and seq.index("inv") < seq.index("close"), "C21", "the event is deleted and its id invalidated before the socket is closed", I, ",".join(seq), W)
            s.ck("cb" in seq or cb.get("m_on_close") == 0, "C22", "a close is reported to its callback", I, "callback set but not run", W)
        if rs.io and rs.io[0] == "read":
            g = rs.io[2]; done = closed or rs.ext
            if g == "+":
                s.ck(not done or "m_on_message" in rs.ran, "C25", "received bytes never close a connection", I, "read of some bytes", W)
                s.ck("m_on_message" in rs.ran or cb.get("m_on_message") == 0, "C25", "received bytes are reported", I, "message callback set but not run", W)
            elif g == "0": s.ck(done, "C22", "the peer's close closes the connection", I, "end of stream", W)
            else:
                if rs.wb == "yes": s.ck(not done, "C25", "a would-block error never closes a connection", I, "read", W)
                elif rs.wb == "no": s.ck(done, "C22", "a read error closes the connection", I, "read error", W)
                else: s.ck(not done, "C25", "a would-block error never closes a connection", I, "close without looking at the error", W)
        if rs.io and rs.io[0] in ("write", "flush") and closed and not rs.ran - {"m_on_close"}:
            s.ck(rs.io[2] != "-" or rs.wb == "no", "C25", "a would-block error never closes a connection", I, "write", W)
        if rs.owed: s.ck(closed or rs.ext, "C23", "write interest is on whenever bytes are buffered", I, "appended bytes without write interest", W)
        elif rs.app: s.ck(True, "C23", "write interest is on whenever bytes are buffered", I, "", W)
        if s.kind == "send": s.sent(st, I, W)
        if s.kind == "write": s.wrote(st, I, W)
        if s.kind == "shutdown": s.shut(st, I, W)
    def sent(s, st, I, W):
        rs = st.rs; p0, n0 = argx(s.f, 1), argx(s.f, 2)
        null = st.facts.get(p0)[:2] == (0, 0); zero = st.facts.get(n0)[:2] == (0, 0)
        fatal = rs.io is not None and rs.io[0] == "write" and rs.io[2] == "-" and rs.wb == "no" and (rs.ext or "st" in rs.seq)
        if rs.ext or "st" in rs.seq:
            s.ck(fatal, "C24", "only a fatal socket error may close from a send", I, "close without a fatal error", W)
        if fatal: s.hit["fatal"] = s.hit.get("fatal", 0) + 1; return
        if rs.io is None and not rs.app:
            s.ck(rs.refused or null or zero, "C23", "every accepted byte is sent or buffered once", I, "returns without sending although connected", W); return
        taken = {}
        if rs.io and rs.io[0] == "write" and rs.io[2] in "+0": taken = lin(rs.io[1])
        rest = linsub(lin(n0), taken)
        if not rs.app:
            s.ck(iszero(st, rest), "C23", "every accepted byte is sent or buffered once", I, "the bytes the socket did not take are lost", W); return
        s.ck(len(rs.app) == 1, "C23", "every accepted byte is sent or buffered once", I, "%d appends" % len(rs.app), W)
        p, n = rs.app[0]
        at = linsub(lin(p), lin(p0)); 
        okp = iszero(st, linsub(at, taken)); okn = iszero(st, linsub(lin(n), rest))
        s.ck(okp and okn, "C23", "buffering continues right after the last byte taken", I, "appends (%s, %s) after taking %s" % (fmt(p), fmt(n), fmt(rs.io[1]) if taken else "nothing"), W)
    def wrote(s, st, I, W):
        rs = st.rs
        if rs.seq or rs.ext or rs.asked: return
        if rs.wi == "0" and not rs.drained and not rs.ran: return        # spurious event
        s.ck(rs.flushed or rs.drained or rs.buf in ("E", "e"), "C24", "the write handler keeps writing while bytes are buffered", I, "returns without writing", W)
        if rs.buf in ("E", "e") or rs.drained:
            s.ck(rs.drained, "C23", "write interest is switched off when the buffer is empty", I, "the buffer is empty and write interest stays on", W)
        if rs.drained:
            s.ck("m_on_send_complete" in rs.ran or dict(rs.cbs).get("m_on_send_complete") == 0 , "C23", "the end of sending is reported", I, "send-complete set but not run", W)
            s.ck(DISCONNECTING not in rs.S, "C24", "a drained disconnecting connection completes its close", I, "returns in state %s" % sorted(rs.S), W)
    def shut(s, st, I, W):
        rs = st.rs
        s.hit["shut"] = s.hit.get("shut", 0) + 1
        if "st" in rs.seq:
            s.ck("shutst" in rs.ran and ("idle" in rs.ran), "C24", "a shutdown closes at once only when nothing is waiting to be written", I, "closes with bytes that may be buffered", W)
        else:
            s.ck(rs.S == frozenset((DISCONNECTING,)), "C24", "a postponed shutdown marks the connection as disconnecting", I, "state %s" % sorted(rs.S), W)
            s.ck(rs.wi not in ("0",) and rs.buf in ("N",), "C24", "a shutdown with nothing buffered completes at once", I, "nothing is waiting and the connection stays open", W)

class Shut(Conn):
    """shutdown(): what was waiting is judged after the state left connected (nobody can append from then on, so a
    buffer seen empty stays empty)"""
    def call(s, st, I, W):
        out = Conn.call(s, st, I, W)
        for b in (out if out is not None else [st]):
            if "mark" in b.rs.ran and b.rs.buf == "E": b.rs = b.rs._replace(ran=b.rs.ran | {"seen"})
        return out
    def setstate(s, st, k, I, W):
        if k == DISCONNECTED:
            rs = st.rs
            if "mark" in rs.ran and (rs.wi == "0" or rs.buf in ("E", "e") or "seen" in rs.ran): st.rs = rs._replace(ran=rs.ran | {"idle", "shutst"})
        Conn.setstate(s, st, k, I, W)
        if k == DISCONNECTING:
            # what other threads buffered or armed before that moment shows only in tests made from now on
            st.rs = st.rs._replace(wi="U", buf="U", ran=st.rs.ran | {"mark"})

def analyse(ctx, prop):
    P = ctx.program("prim", cppflags=("-DNDEBUG",))
    n = {}
    def sink(ok, pr, rule, where, detail, W):
        if pr != prop: return
        n[rule] = n.get(rule, 0) + 1
        if ok: ctx.ok(rule, where, detail)
        else: ctx.bad(rule, where, detail, W.trace(), key="%s|%s" % (rule, detail.split(":")[0]))
    fns = [f for f in roots(P) if f.base.startswith(TC + "::") and "{" not in f.base and f.args and not f.base.endswith(("::TcpConnection", "::~TcpConnection"))
           and "::Owner::" not in f.base]
    hits = {}; done = []
    for f in fns:
        nm = f.base.split("::")[-1]
        taken = f.ntaken > 0
        calls = {I.callee or "" for I in f.calls()}
        kind = {"send": "send", "shutdown": "shutdown"}.get(nm, "")
        if "cyclone::RingBuf::write_socket" in calls and kind == "": kind = "write"
        if kind == "send": starts = [(ALL, None)]
        elif kind == "shutdown": starts = [(frozenset((1,)), True), (frozenset((2,)), True)]
        elif taken or kind == "write" or "cyclone::RingBuf::read_socket" in calls: starts = [(frozenset((1,)), True), (frozenset((2,)), True)]
        elif nm.startswith(("get_", "set_", "start_")): starts = [(ALL, None)]
        else: starts = [(ALL, None)]
        for S, lp in starts:
            R = (Shut if kind == "shutdown" else Conn)(f, sink, S, lp, kind)
            Walker(f, R, pure=NPURE).run()
            for k, v in R.hit.items(): hits[k] = hits.get(k, 0) + v
        done.append(f.base)
    ctx.cover["functions of the connection"] = len(done)
    ctx.cover["function list"] = ", ".join(sorted(d.split("::")[-1] for d in done))
    ctx.assumption("shutdown and the event callbacks run on the loop thread with the connection live, as their assertions demand; a callback of a deleted event is not run (C11)")
    return P, hits, n
