"""Typestate of a TcpClient (C20, C21, C29): its socket, its event, its retry timer and its connection on every
path through every function, checked against the client's own invariant

    idle        socket, event invalid; no connection; a retry timer may be pending
    connecting  socket and its event live; no connection; no timer
    connected   socket handed to the connection; event gone; no timer

at every return and whenever user code is called."""
import re
from collections import namedtuple
from evt import *
from net import NPURE, SHARED, SPCTOR, SPDTOR, INVALID, cst
from ir import State

TCL = "cyclone::TcpClient"
CPURE = re.compile(NPURE.pattern + r"|^cyclone::TcpClient::get_connection_state$|^cyclone::TcpConnection::get_state$|^cyclone::RingBuf::|^cyclone::Address::|enable_shared_from_this|^noncopyable")
M3 = {"m_socket": "sock", "m_socket_event_id": "ev", "m_retry_timer_id": "tmr"}
CS = namedtuple("CS", "sock ev tmr conn held fail news keep cbd told mode pend owned got lockdead retry vals evs cc")
MODES = {"idle": dict(sock="inv", ev="inv", tmr="inv", conn=0), "retry": dict(sock="inv", ev="inv", tmr="live", conn=0),
         "connecting": dict(sock="live", ev="live", tmr="inv", conn=0), "connected": dict(sock="conn", ev="inv", tmr="inv", conn=1)}
def mode_of(rs):
    for n, d in MODES.items():
        if all(getattr(rs, k) == v for k, v in d.items()): return n
    return None

class Cli(R0):
    keep_locals = True
    def __init__(s, f, sink, mode, kind):
        s.f = f; s.sink = sink; s.mode = mode; s.kind = kind; s.hit = {}; s.this = argx(f, 0); s.name = f.short()
    def init(s):
        d = dict(MODES[s.mode]) if s.mode else dict(sock="U", ev="U", tmr="U", conn=0)
        return CS(held=0, fail=None, news=None, keep=frozenset(), cbd=False, told=(), mode=s.mode, pend=(), owned=(), got=None, vals=(), evs=(), cc=(), lockdead=s.kind == "ctor", retry=None, **d)
    def ck(s, c, prop, rule, I, what, W):
        s.hit[rule] = s.hit.get(rule, 0) + 1
        s.sink(c, prop, rule, I.where(), "%s: %s" % (s.name, what), W); return c
    def keep_exprs(s, rs):
        return [e for _, e in rs.vals] + [e for e, _ in rs.pend] + [e for e in (rs.news, rs.retry) if e]
    def member(s, e):
        m, o = fieldof(e, TCL)
        return m if m and o == s.this else None
    def valof(s, e, rs=None):
        """member whose present value e is"""
        while e[0] == "cast": e = e[2]
        if rs is not None:
            for m, v in rs.vals:
                if v == e: return m
        return s.member(e[2]) if e[0] == "ld" else None
    def split(s, st, outs):
        r = []
        for rs, e, facts in outs:
            b = st.copy(); b.rs = rs
            if all(b.facts.assume(e, p, k) is not False for p, k in facts): r.append(b)
        return r
    def locked(s, rs): return rs.held == 1 or s.kind in ("ctor", "dtor")
    def consistent(s, rs, I, what, W):
        m = mode_of(rs)
        names = {"sock": "socket", "ev": "event", "tmr": "retry timer", "conn": "connection"}
        s.ck(m is not None, "C29", "the client's socket, event, timer and connection always belong together", I,
             "%s with %s" % (what, ", ".join("%s %s" % (names[k], getattr(rs, k)) for k in names)), W)
        if rs.sock in ("gone", "lost"): s.ck(False, "C20", "a client's socket is never left closed or forgotten", I, what, W)
        else: s.ck(True, "C20", "a client's socket is never left closed or forgotten", I, "", W)
        return m
    def used(s, st, I, W):
        if I.op == "load": es = [W.ev(st, I.o[0])]
        elif I.op == "store": es = [W.ev(st, I.o[1])]
        elif I.op == "call": es = [W.ev(st, o) for o in I.o]
        else: return False
        for e in es:
            while e[0] in ("fld", "idx", "off", "cast"): e = e[2] if e[0] == "cast" else e[1]
            if e == s.this: return True
        return False
    def step(s, st, I, W):
        rs = st.rs
        if rs.cbd and s.used(st, I, W):
            s.ck(bool(rs.keep), "C29", "a client is kept alive while its code still uses it after a user callback", I, "member used after a callback that may release it", W)
        if I.op == "load":
            m = s.member(W.ev(st, I.o[0]))
            if m in ("m_socket", "m_connection") and s.kind == "state":
                s.ck(rs.held == 1, "C29", "what other threads may ask of a client is read under its lock", I, m, W)
            if m in M3:
                v = getattr(rs, M3[m]); a = W.ev(st, I.o[0])
                e = st.mem.get(a)
                if e is None:
                    e = ("ld", I.i, a); st.facts.m.pop(e, None)
                if v == "inv": r = st.facts.assume(e, "eq", -1)
                elif v in ("live", "conn", "gone", "dead", "lost"): r = st.facts.assume(e, "ne", -1)
                else: r = True
                return [] if r is False else None
            return None
        if I.op == "store":
            a = W.ev(st, I.o[1]); v = W.ev(st, I.o[0]); m = s.member(a)
            if m == "m_socket": s.setsock(st, v, I, W)
            elif m in ("m_socket_event_id", "m_retry_timer_id"): s.setev(st, M3[m], v, I, W)
            elif m == "m_connection_lock":
                st.rs = st.rs._replace(lockdead=not (v[0] == "call" and v[2].endswith("mutex_create")))
            return None
        if I.op in ("atomicrmw", "cmpxchg"): return None
        if I.op == "call": return s.call(st, I, W)
        return None
    def setsock(s, st, v, I, W):
        rs = st.rs
        s.ck(s.locked(rs), "C29", "what other threads read of a client is only changed under its lock", I, "m_socket", W)
        inv = v[0] == "const" and v[1] in INVALID
        lo, hi, ex = st.facts.get(v) if v[0] != "const" else (v[1], v[1], ())
        s.ck(rs.sock != "live", "C20", "a client's open socket is never overwritten", I, "stores %s while a socket is open" % fmt(v), W)
        if inv or lo == hi == -1: st.rs = rs._replace(sock="inv", news=None)
        elif rs.news is not None and v == rs.news: st.rs = rs._replace(sock="live" if -1 in ex or lo >= 0 else "U", news=None)
        else: st.rs = rs._replace(sock="lost")
        st.rs = s.setval(st.rs, "m_socket", v)
    def setval(s, rs, m, v):
        return rs._replace(vals=tuple(sorted([(k, x) for k, x in rs.vals if k != m] + ([(m, v)] if v[0] == "call" else []))))
    def setev(s, st, k, v, I, W):
        rs = st.rs; cur = getattr(rs, k); nm = "event" if k == "ev" else "retry timer"
        rs = st.rs = s.setval(rs, {"ev": "m_socket_event_id", "tmr": "m_retry_timer_id"}[k], v)
        if v[0] == "const" and v[1] in INVALID:
            s.ck(cur in ("inv", "dead", "U"), "C29", "the client's registered events are deleted before their ids are forgotten", I, "%s id reset while registered" % nm, W)
            st.rs = rs._replace(**{k: "inv"}); return
        p = next((x for x in rs.pend if x[0] == v), None)
        s.ck(p is not None and p[1] == k, "C29", "the client's event ids come from its own registrations", I, "%s id is %s" % (nm, fmt(v)), W)
        s.ck(cur == "inv" or cur == "U", "C29", "the client's registered events are deleted before their ids are forgotten", I, "%s id overwritten while %s" % (nm, cur), W)
        if p: st.rs = rs._replace(pend=tuple(x for x in rs.pend if x != p), **{k: "live"})
    def user(s, rs):
        """user code ran: it may have called connect, disconnect or send"""
        m = mode_of(rs); out = [rs]
        if m == "connecting": out.append(rs._replace(**MODES["idle"]))
        elif m == "retry": out.append(rs._replace(**MODES["idle"]))
        if m in ("idle", "retry", "connecting"): out.append(rs._replace(**MODES["connecting"]))
        out = [rs] + [o._replace(evs=o.evs + ("usr",)) if "usr" not in o.evs else o for o in out[1:]]
        return list(dict.fromkeys(o._replace(cbd=True) for o in out))
    def forget(s, st):
        st.rs = st.rs._replace(vals=())
        for k in [k for k in st.mem if s.member(k) in M3 or s.member(k) == "m_connection"]: del st.mem[k]
    def did(s, st, e): st.rs = st.rs._replace(evs=st.rs.evs + (e,) if st.rs.evs.count(e) < 2 else st.rs.evs)
    def cached(s, st, I, W, c, args, res):
        """bytes given while connecting"""
        rs = st.rs; k = c.split("::")[-1]
        if k in ("empty", "size"):
            if "cache:E" in rs.evs: return s.split(st, [(rs, res, [("ne" if k == "empty" else "eq", 0)])])
            if "cache:N" in rs.evs: return s.split(st, [(rs, res, [("eq" if k == "empty" else "ne", 0)])])
            e, n = ("ne", "eq") if k == "empty" else ("eq", "ne")
            return s.split(st, [(rs._replace(evs=rs.evs + ("cache:E",)), res, [(e, 0)]), (rs._replace(evs=rs.evs + ("cache:N",)), res, [(n, 0)])])
        if k == "memcpy_into":
            s.ck(args[1:] == [argx(s.f, 1), argx(s.f, 2)] if s.kind == "send" else False, "C23", "a connecting client keeps exactly the bytes it was given", I, "%s bytes from %s" % (fmt(args[2]), fmt(args[1])), W)
            s.did(st, "cached")
        if k == "reset" or k in ("discard", "memcpy_out", "moveto"):
            s.ck(s.kind in ("ctor", "dtor", "disconnect") or "cache:E" in rs.evs or "cachesent" in rs.evs, "C23", "kept bytes are discarded only after they were sent or by disconnecting", I, k, W)
            s.did(st, "cachereset")
        return None
    def iscache(s, e, name):
        while e[0] == "cast": e = e[2]
        return e[0] == "call" and (e[2] or "").startswith("cyclone::RingBuf::" + name) and s.member(e[3][0]) == "m_sendCache"
    def csend(s, st, I, W, args):
        if s.kind == "send":
            s.ck(args[1:3] == [argx(s.f, 1), argx(s.f, 2)], "C23", "a connected client sends exactly the bytes it was given", I, "%s bytes from %s" % (fmt(args[2]), fmt(args[1])), W); s.did(st, "passed")
        elif s.iscache(args[1], "normalize"):
            s.ck(s.iscache(args[2], "size") and "cachereset" not in st.rs.evs and "cachesent" not in st.rs.evs, "C23", "kept bytes are sent once, all of them, when the client is connected", I, "sends %s bytes" % fmt(args[2]), W); s.did(st, "cachesent")
    def call(s, st, I, W):
        rs = st.rs; c = I.callee or ""; args = [W.ev(st, o) for o in I.o]
        res = ("call", I.i, I.callee, tuple(args)); st.facts.m.pop(res, None)
        if c.startswith("cyclone::RingBuf::") and s.member(args[0]) == "m_sendCache": return s.cached(st, I, W, c, args, res)
        if s.kind == "state" and any(s.member(a) == "m_connection" for a in args):
            s.ck(rs.held == 1, "C29", "what other threads may ask of a client is read under its lock", I, "m_connection", W)
        if c.endswith("::operator=") and args:
            m = fieldof(args[0], "cyclone::TcpConnection")[0]
            if m in ("m_on_message", "m_on_close"): s.did(st, "set:" + m)
        if c == "cyclone::sys_api::mutex_lock" and s.valof(args[0], rs) == "m_connection_lock":
            s.ck(not rs.lockdead, "C29", "the client's lock is used while it exists", I, "lock", W)
            st.rs = rs._replace(held=1); return None
        if c == "cyclone::sys_api::mutex_unlock" and s.valof(args[0], rs) == "m_connection_lock": st.rs = rs._replace(held=0); return None
        if c == "cyclone::sys_api::mutex_destroy" and s.valof(args[0], rs) == "m_connection_lock":
            s.ck(s.kind == "dtor" and not rs.lockdead, "C29", "the client's lock is used while it exists", I, "destroyed", W)
            st.rs = rs._replace(lockdead=True); return None
        if c == TCL + "::get_connection_state" and args[0] == s.this:
            s.ck(rs.held == 0, "C29", "the client's lock is not taken twice", I, "state read with the lock held", W)
            m = mode_of(rs)
            if m is None: return None
            f = {"idle": [[("eq", 3)]], "retry": [[("eq", 3)]], "connecting": [[("eq", 0)]], "connected": [[("eq", k)] for k in (1, 2, 3)]}[m]
            return s.split(st, [(rs._replace(got=x[0][1]), res, x) for x in f])
        if c == "cyclone::socket_api::create_socket":
            return s.split(st, [(rs._replace(news=res), res, [("ne", -1)]), (rs._replace(news=res), res, [("eq", -1)])])
        if c == "cyclone::Looper::register_event":
            own = s.valof(args[1], rs) == "m_socket"
            s.ck(own and rs.sock == "live", "C21", "a client registers an event only for its own open socket", I, "registers %s with socket %s" % (fmt(args[1]), rs.sock), W)
            st.rs = rs._replace(pend=rs.pend + ((res, "ev"),)); return None
        if c == "cyclone::Looper::register_timer_event":
            st.rs = rs._replace(pend=rs.pend + ((res, "tmr"),))
            lo, hi, ex = st.facts.get(args[1]) if args[1][0] != "const" else (args[1][1], args[1][1], ())
            s.ck(args[1] == rs.retry and (lo > 0 or 0 in ex), "C29", "a retry is scheduled exactly when the callback asks for one", I, "delay %s" % fmt(args[1]), W)
            st.rs = st.rs._replace(told=st.rs.told + ("timer",)); return None
        if c in ("cyclone::Looper::delete_event",):
            m = s.valof(args[1], rs)
            k = M3.get(m)
            s.ck(k in ("ev", "tmr") and getattr(rs, k) == "live", "C29", "a client only deletes events it has registered", I, "deletes %s (%s)" % (fmt(args[1]), getattr(rs, k) if k else "?"), W)
            if k in ("ev", "tmr"): st.rs = rs._replace(**{k: "dead"})
            return None
        if c.startswith("cyclone::Looper::") and len(args) > 1 and s.valof(args[1], rs) in ("m_socket_event_id", "m_retry_timer_id"):
            s.ck(getattr(rs, M3[s.valof(args[1], rs)]) == "live", "C21", "a client only uses events that are registered", I, c.split("::")[-1], W); return None
        if c == "cyclone::socket_api::close_socket":
            if s.valof(args[0], rs) == "m_socket" or args[0] == rs.news:
                s.ck(rs.ev in ("inv", "dead"), "C21", "the event is deleted before the socket is closed", I, "close with the event %s" % rs.ev, W)
                s.ck(rs.sock == "live" or rs.news is not None, "C20", "a client's socket is closed once, by the client that owns it", I, "close with socket %s" % rs.sock, W)
                st.rs = rs._replace(sock="gone") if rs.sock != "inv" else rs._replace(news=None)
            return None
        if c == "cyclone::socket_api::connect" and args and s.valof(args[0], rs) == "m_socket":
            return s.split(st, [(rs._replace(fail=("begin", 0)), res, [("ne", 0)]), (rs._replace(fail=("begin", 1)), res, [("eq", 0)])])
        if c == "cyclone::socket_api::get_socket_error" and s.valof(args[0], rs) == "m_socket":
            s.ck(rs.sock == "live", "C20", "a client only uses its socket while it is open", I, "get_socket_error", W)
            return s.split(st, [(rs._replace(fail=("done", 0)), res, [("eq", 0)]), (rs._replace(fail=("done", 1)), res, [("ne", 0)])])
        if c.startswith("cyclone::socket_api::") and args and s.valof(args[0], rs) == "m_socket":
            s.ck(rs.sock in ("live", "conn"), "C20", "a client only uses its socket while it is open", I, c.split("::")[-1], W); return None
        mk = re.search(r"^std::make_shared<cyclone::TcpConnection\b|^cyclone::TcpConnection::TcpConnection$|allocate_shared<cyclone::TcpConnection\b", c)
        if mk and any(s.member(a) == "m_socket" or s.valof(a, rs) == "m_socket" for a in args):
            s.ck(rs.ev in ("inv", "dead"), "C21", "the client's event is deleted before the socket is handed to a connection", I, "hand over with the event %s" % rs.ev, W)
            s.ck(rs.sock == "live", "C20", "a socket is handed over once, while open", I, "hand over of socket %s" % rs.sock, W)
            s.ck(rs.fail == ("done", 0), "C29", "a connection is only made of a socket that connected", I, "socket error %s" % ("not examined" if rs.fail is None else "seen"), W)
            o = args[0][1] if args[0][0] == "alloca" else "member" if s.member(args[0]) == "m_connection" else None
            st.rs = rs._replace(sock="conn", owned=rs.owned + ((o,) if o is not None else ())); return None
        if re.search(r"^std::(__)?shared_ptr<.*TcpConnection.*>::(operator=|shared_ptr|reset|swap)(<.*>)?$", c) and s.member(args[0]) == "m_connection":
            if s.kind == "ctor": return None
            s.ck(s.locked(rs), "C29", "what other threads read of a client is only changed under its lock", I, "m_connection", W)
            good = len(args) > 1 and args[1][0] == "alloca" and args[1][1] in rs.owned
            s.ck(good, "C29", "the client's connection is the one made of its socket", I, fmt(args[1]) if len(args) > 1 else "reset", W)
            if good: st.rs = rs._replace(conn=1)
            return None
        if re.search(r"^std::(__)?shared_ptr<.*TcpConnection.*>::(operator=|shared_ptr)(<.*>)?$", c) and len(args) > 1 and args[0][0] == "alloca" and s.member(args[1]) == "m_connection":
            st.rs = rs._replace(cc=tuple(x for x in rs.cc if x[0] != args[0][1]) + ((args[0][1], rs.conn),)); return None      # a copy of the pointer
        if re.search(r"^std::(__)?shared_ptr<.*TcpConnection.*>::(operator=|shared_ptr)(<.*>)?$", c) and len(args) > 1 and args[0][0] == "alloca" and args[1][0] == "alloca" and args[1][1] in rs.owned:
            st.rs = rs._replace(owned=rs.owned + (args[0][1],)); return None
        if re.search(r"^std::__shared_ptr<.*>::operator bool$|^std::operator[!=]=<.*TcpConnection", c) and any(s.member(a) == "m_connection" for a in args):
            neg = "operator==" in c
            return s.split(st, [(rs, res, [("ne" if bool(rs.conn) != neg else "eq", 0)])])
        if re.search(r"^std::__shared_ptr<.*>::operator bool$|^std::operator[!=]=<.*TcpConnection", c):
            k = next((x[1] for a in args if a[0] == "alloca" for x in rs.cc if x[0] == a[1]), None)
            if k is not None: return s.split(st, [(rs, res, [("ne" if bool(k) != ("operator==" in c) else "eq", 0)])])
        if re.search(r"^std::__shared_ptr(_access)?<.*>::(operator->|operator\*|get)$", c) and s.member(args[0]) == "m_connection":
            s.ck(rs.conn == 1 or c.endswith("get"), "C29", "a client only uses the connection it has", I, "no connection yet", W)
            return None
        if c in ("cyclone::TcpConnection::shutdown", "cyclone::TcpConnection::send"):
            if c.endswith("shutdown"):
                live = rs.got in (1, 2)
                s.ck(live, "C29", "a client only shuts down a connection that is not closed", I, "state not known", W)
                s.did(st, "shut")
            else: s.csend(st, I, W, args)
            return None
        if SHARED.search(c):
            a = args[1] if len(args) > 1 else None
            while a is not None and a[0] in ("idx", "off", "cast", "fld"): a = a[2] if a[0] == "cast" else a[1]
            if args[0][0] == "alloca" and a == s.this: st.rs = rs._replace(keep=rs.keep | {args[0][1]})
            return None
        if SPCTOR.search(c) and len(args) > 1 and args[0][0] == "alloca":
            src = args[1][1] if args[1][0] == "alloca" else None
            st.rs = rs._replace(keep=(rs.keep | {args[0][1]}) if src in rs.keep else rs.keep - {args[0][1]}); return None
        if SPDTOR.search(c) and args[0][0] == "alloca":
            st.rs = rs._replace(keep=rs.keep - {args[0][1]}); return None
        if c == TCL + "::connect" and args[0] == s.this:
            s.ck(mode_of(rs) in ("idle", "retry"), "C29", "a connect starts from an idle client", I, "socket %s, event %s" % (rs.sock, rs.ev), W)
            s.forget(st); rs = rs._replace(vals=())
            return s.split(st, [(rs._replace(fail=None, **MODES["connecting"]), res, [("ne", 0)]), (rs._replace(fail=("begin", 1), **MODES["idle"]), res, [("eq", 0)])])
        if FTEST.search(c):
            for k in ("on_message", "on_close"):
                if any(fieldof(a, TCL + "::Listener")[0] == k for a in args):
                    neg = "operator==" in c
                    return s.split(st, [(rs, res, [("ne" if not neg else "eq", 0)]), (rs._replace(evs=rs.evs + ("none:" + k,)), res, [("eq" if not neg else "ne", 0)])])
            ev = next((a for a in args if fieldof(a, TCL + "::Listener")[0] == "on_connected"), None)
            if ev is not None:
                neg = "operator==" in c
                return s.split(st, [(rs, res, [("ne" if not neg else "eq", 0)]), (rs._replace(told=rs.told + ("none",)), res, [("eq" if not neg else "ne", 0)])])
            return None
        if FCALL.search(c):
            n = fieldof(args[0], TCL + "::Listener")[0]
            if n is None: return None
            s.hit["cb:" + n] = s.hit.get("cb:" + n, 0) + 1
            if n == "on_connected":
                ok = args[-1]
                s.ck(rs.held == 0, "C29", "callbacks run without the client's lock", I, n, W)
                if cst(ok) == 0:
                    s.ck(rs.fail is not None and rs.fail[1] == 1 and rs.conn == 0, "C29", "a failure is reported only when the attempt failed", I, "reports a failure", W)
                    rs = rs._replace(told=rs.told + ("fail",), retry=res)
                elif cst(ok) == 1:
                    s.ck(rs.conn == 1, "C29", "success is reported only with an established connection", I, "reports success", W)
                    s.wired(st, I, W)
                    rs = rs._replace(told=rs.told + ("ok",))
                else: s.ck(False, "C29", "the outcome that is reported is the real one", I, fmt(ok), W)
                s.consistent(rs, I, "on_connected runs", W)
            s.forget(st); rs = rs._replace(vals=()); outs = []
            for r in s.user(rs):
                b = st.copy(); b.rs = r; outs.append(b)
            return outs
        return None
    def exit(s, st, I, W):
        rs = st.rs
        s.hit["exit"] = s.hit.get("exit", 0) + 1
        s.ck(not rs.pend, "C29", "every event a client registers is remembered", I, "%d registration(s) forgotten" % len(rs.pend), W)
        s.ck(rs.news is None or st.facts.get(rs.news)[:2] == (-1, -1), "C20", "a socket a client creates is kept or closed", I, "new socket forgotten", W)
        s.ck(rs.held == 0, "C29", "the client's lock is not taken twice", I, "lock still held", W)
        if s.kind == "dtor":
            s.ck(rs.sock in ("inv", "conn", "gone"), "C20", "a destroyed client leaves no socket open", I, "socket %s" % rs.sock, W)
            s.ck(rs.ev in ("inv", "dead") and rs.tmr in ("inv", "dead"), "C29", "a destroyed client leaves no event registered", I, "event %s, timer %s" % (rs.ev, rs.tmr), W)
            return
        m = s.consistent(rs, I, "returns", W)
        if s.kind == "ctor":
            s.ck(m == "idle" and not rs.lockdead, "C29", "a new client is idle", I, "mode %s" % m, W)
        if s.kind == "connect" and I.o:
            v = W.ev(st, I.o[0]); t = W.truth(st, v)
            s.ck(t is not None and m == ("connecting" if t else "idle"), "C29", "connect says true exactly when an attempt was started and leaves nothing behind otherwise", I, "returns %s with mode %s" % (fmt(v), m), W)
            if rs.fail == ("begin", 1): s.ck(t is False, "C29", "a connect that failed at once is reported", I, "returns true", W)
        if s.kind == "event":
            if s.mode != "connecting":
                s.ck(not set(rs.told) - {"none"}, "C29", "each attempt is reported once", I, "reports without an attempt", W)
            else:
                r = [x for x in rs.told if x != "timer"]
                if rs.fail == ("done", 1):
                    s.ck(r in (["fail"], ["none"]), "C29", "each attempt is reported once", I, "failed attempt: %s" % ",".join(r), W)
                    s.ck(m != "connecting" or "fail" in r, "C29", "a failed attempt leaves the client idle", I, "still %s" % m, W)
                    s.ck(m != "connected", "C29", "a failed attempt leaves the client idle", I, "still %s" % m, W)
                    s.retried(st, rs, I, W)
                elif rs.fail == ("done", 0):
                    s.ck(r in (["ok"], ["none"]) and m == "connected", "C29", "each attempt is reported once", I, "successful attempt: %s, %s" % (",".join(r), m), W)
                    if r == ["none"]: s.wired(st, I, W)
                else: s.ck(False, "C29", "the outcome of an attempt is looked at", I, "returns without examining the socket", W)
        if s.kind == "retry":
            if rs.fail == ("begin", 1):
                r = [x for x in rs.told if x != "timer"]
                s.ck(r in (["fail"], ["none"]), "C29", "each attempt is reported once", I, "failed attempt: %s" % ",".join(r), W)
                s.retried(st, rs, I, W)
            else: s.ck(m == "connecting" and not rs.told, "C29", "a retry starts a new attempt", I, "mode %s" % m, W)
        if s.kind == "disconnect":
            s.ck(m == {"idle": "idle", "retry": "idle", "connecting": "idle"}.get(s.mode, m), "C29", "disconnect ends an attempt and its retry", I, "mode %s" % m, W)
            if s.mode == "connected": s.ck(rs.evs.count("shut") == (1 if rs.got in (1, 2) else 0), "C29", "disconnect shuts an established connection down", I, "state %s: %d shutdown(s)" % (rs.got, rs.evs.count("shut")), W)
        if s.kind == "send":
            none = any(st.facts.copy().assume(argx(s.f, k), "ne", 0) is False for k in (1, 2))
            a, b = rs.evs.count("cached"), rs.evs.count("passed")
            want = {"connecting": (1, 0), "idle": (0, 0), "retry": (0, 0), "connected": (0, 1 if rs.got == 1 else 0)}[s.mode]
            s.ck((a, b) == want or none and a == b == 0 or s.mode in ("idle", "retry") and b == 0 or s.mode == "connected" and rs.got != 1 and a == 0, "C23", "bytes given to a client are kept while it connects and passed on once when it is connected", I, "%s: kept %d times, passed on %d times" % (s.mode, a, b), W)
    def wired(s, st, I, W):
        ev = st.rs.evs
        for k in ("message", "close"):
            s.ck("set:m_on_" + k in ev or "none:on_" + k in ev, "C29", "a new connection reports to the client's user before it is announced", I, k + " callback missing", W)
        s.ck("cache:E" in ev or "cachesent" in ev and "cachereset" in ev, "C23", "kept bytes are sent once, all of them, when the client is connected", I, "kept bytes are %s" % ("sent but not removed" if "cachesent" in ev else "not sent"), W)
    def retried(s, st, rs, I, W):
        if rs.retry is None:
            s.ck("timer" not in rs.told, "C29", "a retry is scheduled exactly when the callback asks for one", I, "timer without a request", W); return
        lo, hi, ex = st.facts.get(rs.retry)
        if "usr" not in rs.evs and "timer" not in rs.told and not lo == hi == 0:
            s.ck(False, "C29", "a retry is scheduled exactly when the callback asks for one", I, "the callback may have asked for a retry and none is scheduled", W)
        elif mode_of(rs) == "idle" and "timer" not in rs.told and (lo > 0 or 0 in ex):
            s.ck(False, "C29", "a retry is scheduled exactly when the callback asks for one", I, "the callback asked for a retry and none is scheduled", W)
        elif lo == hi == 0 or "timer" in rs.told:
            s.ck(("timer" in rs.told) == (not (lo == hi == 0)), "C29", "a retry is scheduled exactly when the callback asks for one", I, "timer %s" % ("set" if "timer" in rs.told else "not set"), W)

class Report(R0):
    """what happens on the client's connection reaches the user"""
    def __init__(s, f, sink): s.f = f; s.sink = sink; s.hit = {}; s.name = f.short()
    def init(s): return ()
    def step(s, st, I, W):
        if I.op != "call" or not I.o: return None
        c = I.callee or ""; a = W.ev(st, I.o[0]); res = ("call", I.i, c, tuple(W.ev(st, o) for o in I.o))
        n = fieldof(a, TCL + "::Listener")[0]
        if n not in ("on_message", "on_close"): return None
        if FCALL.search(c): st.rs = st.rs + (n,) if st.rs.count(n) < 2 else st.rs; s.hit["report:" + n] = 1
        elif FTEST.search(c):
            x = st.copy(); x.rs = x.rs + ("none:" + n,); x.facts.assume(res, "eq", 0)
            y = st.copy(); y.facts.assume(res, "ne", 0); return [x, y]
        return None
    def exit(s, st, I, W):
        k = [x for x in st.rs]
        s.sink(len(k) == 1, "C29", "what happens on the connection is reported to the client's user once", I.where(), "%s: %s" % (s.name, ", ".join(k) or "not reported"), W)

class StateFn(Cli):
    """get_connection_state tells the mode"""
    def exit(s, st, I, W):
        v = W.ev(st, I.o[0]) if I.o else ("opaque", "none")
        want = {"idle": 3, "retry": 3, "connecting": 0}.get(s.mode)
        if want is not None: s.ck(cst(v) == want, "C29", "the client's state is what it says", I, "%s client says %s" % (s.mode, fmt(v)), W)
        else: s.ck(any(x[0] == "ld" and "TcpConnection.m_state" in str(x[2]) or x[0] == "call" and (x[2] or "").endswith("::get_state") for x in subexprs(v)) or v[0] == "val", "C29", "the client's state is what it says", I, "connected client says %s" % fmt(v), W)

def analyse(ctx, prop):
    P = ctx.program("prim", cppflags=("-DNDEBUG",))
    n = {}
    def sink(ok, pr, rule, where, detail, W):
        if pr != prop: return
        n[rule] = n.get(rule, 0) + 1
        if ok: ctx.ok(rule, where, detail)
        else: ctx.bad(rule, where, detail, W.trace(), key="%s|%s" % (rule, detail.split(":")[0]))
    hits = {}; done = []
    for f in roots(P):
        if not f.base.startswith(TCL + "::") or "{" in f.base or "$_" in f.base or not f.args or f.args[0][0] != "this": continue
        nm = f.base.split("::")[-1]
        calls = {I.callee or "" for I in f.calls()}
        if nm == "~TcpClient" and TCL + "::~TcpClient" in calls: continue
        kind = {"TcpClient": "ctor", "~TcpClient": "dtor", "connect": "connect", "disconnect": "disconnect", "send": "send", "get_connection_state": "state"}.get(nm, "")
        if kind == "" and "cyclone::socket_api::get_socket_error" in calls: kind = "event"
        if kind == "" and TCL + "::connect" in calls: kind = "retry"
        modes = {"ctor": [None], "connect": ["idle", "retry"], "retry": ["retry"]}.get(kind, list(MODES))
        for m in modes:
            R = (StateFn if kind == "state" else Cli)(f, sink, m, kind)
            Walker(f, R, pure=CPURE).run()
            for k, v in R.hit.items(): hits[k] = hits.get(k, 0) + v
        done.append(f.base); hits["kind:" + kind] = hits.get("kind:" + kind, 0) + 1
    for f in P.fns.values():
        if not f.base.startswith(TCL + "::") or not f.base.endswith("operator()"): continue
        if any(FCALL.search(I.callee or "") and I.o and fieldof(static_ev(f, I.o[0]), TCL + "::Listener")[0] in ("on_message", "on_close") for I in f.calls()):
            r = Report(f, sink); Walker(f, r, pure=CPURE).run()
            for k, v in r.hit.items(): hits[k] = hits.get(k, 0) + v
    ctx.cover["functions of the client"] = len(done)
    ctx.cover["client functions"] = ", ".join(sorted(d.split("::")[-1] for d in done))
    ctx.assumption("connect, disconnect and the callbacks of a client run on its loop's thread, connect only on an idle client, as their assertions demand")
    return P, hits, n
