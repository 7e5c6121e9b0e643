"""Byte interpreter (sa/bi.py) over every constructor of Address, the assignment, the accessors and the library functions that build an address from a
system call's answer, with everything they call; the system calls are given by contract and each of their outcomes (success, failure, which of the two for
each conversion) is explored on its own path. On every path: all 16 bytes of the socket address are defined, family and padding included; the port in it is the host port
with its two bytes exchanged exactly once (and get_port exchanges them back); the address bytes are those the argument, the text or the system call gave; the text is defined up to a
terminator, and after a successful conversion it was made from exactly these address bytes; a copy takes over both parts; nothing undefined is copied into an address and every write
stays inside its object."""
import bi
from bi import *
from pstat import layout
LEVEL = "proof"
SA = 16
def txt(b): return b.__class__ is tuple and b[0] == "txt"
def models():
    def pton(s, st, I, a):
        out = []
        ok = st.copy(); s.oblige(ok, cint(a[0]) == 2, "the conversions are told the family", I, "inet_pton of an IPv4 address")
        try: s.sto(ok, a[2], [("pton", a[1][1], k) for k in range(4)], I); out.append((ok, mk(1, 32)))
        except Stop: pass
        for r in (0, -1): out.append((st.copy(), mk(r, 32)))
        return out
    def ntop(s, st, I, a):
        out = []; n = cint(a[3]); ok = st.copy()
        s.oblige(ok, cint(a[0]) == 2, "the conversions are told the family", I, "inet_ntop of an IPv4 address")
        if not s.oblige(ok, n is not None and n >= 16, "the text fits", I, "room for the longest text is announced"): return []
        try:
            src = s.ld(ok, a[1], 4, I); s.oblige(ok, None not in src, "only defined bytes are used", I, "the bytes that are converted")
            s.ld(ok, a[2], n, I, strict=False)       # all of the announced room must exist
            s.sto(ok, a[2], [("txt", tuple(src))] + [("txt+",)] * 15, I); out.append((ok, a[2]))
        except Stop: pass
        return out          # with this family and this room inet_ntop cannot fail
    def name(which):
        def f(s, st, I, a):
            out = []; ok = st.copy()
            try:
                n = cint(("I", 32, tuple(s.ld(ok, a[2], 4, I))))
                if not s.oblige(ok, n is not None and n >= SA, "the system call is told the room", I, "%s is given the size of the buffer" % which): return []
                s.ld(ok, a[1], n, I, strict=False)
                s.sto(ok, a[1], [(which, a[0], k) for k in range(SA)], I); s.sto(ok, a[2], bts(mk(SA, 32)), I); ok.g["name"] = True; out.append((ok, mk(0, 32)))
            except Stop: pass
            bad = st.copy(); bad.g["name"] = False; out.append((bad, mk(-1, 32))); return out
        return f
    def gai(s, st, I, a):
        ok = st.copy()
        try: s.sto(ok, a[3], bts(("P", "ai", 0)), I)
        except Stop: return [(st, mk(-2, 32))]
        return [(ok, mk(0, 32)), (st, mk(-2, 32))]
    quiet = lambda s, st, I, a: s.result(st, I.ty)
    def scpy(s, st, I, a):
        z = st.size.get(a[1][1]); n = cint(a[2]) if len(a) > 2 else None if z is None else z - a[1][2]
        if n is None or z is None or a[1][2] is None: return NotImplemented
        try: s.sto(st, a[0], s.ld(st, a[1], min(n, z - a[1][2]), I), I)
        except Stop: return []
        return a[0]
    return [(r"^(strcpy|strncpy|strlcpy)$", scpy), (r"^inet_pton$", pton), (r"^inet_ntop$", ntop), (r"^getsockname$", name("sock")), (r"^getpeername$", name("peer")), (r"^getaddrinfo$", gai), (r"^freeaddrinfo$", quiet),
            (r"^cyclone::disk_log$", quiet), (r"^cyclone::socket_api::(get_lasterror|global_init)$", quiet), (r"^__errno_location$", quiet)]

def run(ctx):
    P = ctx.program("prim"); seen = set(); stats = {"paths": 0, "steps": 0}; fns = set(); A = "cyclone::Address"
    size, fa, ft, tl, port, addr, fam = shape(P)
    def report(rule, where, detail, tr):
        k = (rule, where, detail)
        if k not in seen: seen.add(k); ctx.bad(rule, where, detail, tr, key="%s|%s|%s" % (rule, cur[0], detail))
    cur = [""]
    def go(f, setup, check):
        cur[0] = f.dem; E = BI(P, report, models()); st = E.state(); args = setup(E, st)
        outs = E.run(st, f, args); stats["paths"] += len(outs); fns.update(E.fns)
        ctx.need(len(outs), 1, "paths through %s" % f.base)
        for o, v in outs: check(E, o, v, f.blocks[-1][-1])
        stats["steps"] += E.steps
        for (rule, where, d), good in E.obl.items():
            if good: ctx.ok(rule, where, "%s [%s]" % (d, f.dem))
    def obj(E, st, n="this", init=None): return E.block(st, n, size, init)
    def whole(E, st, I, this="this"):
        m = st.mem[this]; by = [m.get(fa + k) for k in range(SA)]; miss = [k for k, b in enumerate(by) if b is None]
        E.oblige(st, not miss, "the address is fully initialised", I, "all 16 bytes are defined (not %s)" % ", ".join(map(str, miss)) if miss else "all 16 bytes are defined")
        t = [m.get(ft + k) for k in range(tl)]; ok = False
        for b in t:
            if b is None: break
            if b == 0 or txt(b): ok = True; break
            if b.__class__ is tuple and b[0] == "in" and b[2] - ft == t.index(b): ok = all(x == ("in", b[1], ft + k) for k, x in enumerate(t)); break
        E.oblige(st, ok, "the text is terminated", I, "text of the address")
        if txt(t[0]): E.oblige(st, list(t[0][1]) == by[addr:addr + 4], "text and address agree", I, "the text was made from the address that is kept")
        return by
    def ports(E, st, I, by, src): E.oblige(st, by[port:port + 2] == [src[1], src[0]], "ports are converted exactly once", I, "the port is kept in network order")
    def family(E, st, I, by): E.oblige(st, by[fam:fam + 2] == [2, 0], "the address is fully initialised", I, "the family is AF_INET")
    def same(E, st, I, by, want, what): E.oblige(st, by == want, "the address is what was asked for", I, what)
    ctors = [f for f in P.fns.values() if f.base == A + "::Address"]; kinds = set()
    for f in ctors:
        ty = tuple(t for _, t in f.args[1:]); d = f.dem[len(A + "::Address"):]
        if ty == ("i16", "i1"):
            kinds.add("port"); p = sym("port", 16); lb = ("B", ("s", "loopback"))
            def chk(E, st, v, I):
                by = whole(E, st, I); family(E, st, I, by); ports(E, st, I, by, p[2]); t = st.pc.get(("s", "loopback"))
                got = by[addr:addr + 4]; sel = st.pc.get(("s", "loopback"), st.pc.get(("nz", ("bool", ("s", "loopback")))))
                if sel is None: E.oblige(st, False, "the address is what was asked for", I, "the loopback argument decides about the address")
                else: same(E, st, I, got, [127, 0, 0, 1] if sel else [0, 0, 0, 0], "loopback or any address")
            go(f, lambda E, st: [obj(E, st), p, lb], chk)
        elif ty == ("ptr", "i16"):
            kinds.add("text"); p = sym("port", 16)
            def chk(E, st, v, I):
                by = whole(E, st, I); family(E, st, I, by); ports(E, st, I, by, p[2]); got = by[addr:addr + 4]
                same(E, st, I, got[:1] and got, [("pton", "ip", k) for k in range(4)] if any(x.__class__ is tuple for x in got) else [0] * 4, "the address the text gives, or none")
                E.oblige(st, E.calls.get("inet_pton", 0) > 0, "the address is what was asked for", I, "the text is converted")
            go(f, lambda E, st: [obj(E, st), ("P", "ip", 0), p], chk)
        elif ty == ("i1", "i32"):
            kinds.add("socket"); fd = sym("sfd", 32)
            def chk(E, st, v, I):
                by = whole(E, st, I); sel = next((x for k, x in st.pc.items() if "wantpeer" in str(k)), None)
                if sel is None or "name" not in st.g: E.oblige(st, False, "the address is what was asked for", I, "own or peer address as asked for"); return
                if st.g["name"]: same(E, st, I, by, [("peer" if sel else "sock", fd, k) for k in range(SA)], "all of the address the system call gave, for this socket and side")
                else: same(E, st, I, by, [0] * SA, "an empty address when the system call fails")
            go(f, lambda E, st: [obj(E, st), ("B", ("s", "wantpeer")), fd], chk)
        elif ty == ():
            kinds.add("default")
            def chk(E, st, v, I): same(E, st, I, whole(E, st, I), [0] * SA, "an empty address")
            go(f, lambda E, st: [obj(E, st)], chk)
        elif ty == ("ptr",) and "Address" in d.split("(")[-1]: pass
        elif ty == ("ptr",):
            kinds.add("sockaddr"); src = {k: ("in", "src", k) for k in range(SA)}
            def chk(E, st, v, I): same(E, st, I, whole(E, st, I), [src[k] for k in range(SA)], "the given address")
            go(f, lambda E, st: [obj(E, st), E.block(st, "src", SA, src)], chk)
    for f in list(P.fns.values()):
        if not (f.base == A + "::operator=" or f.base == A + "::Address" and re.search(r"\((cyclone::)?Address (const)?&", f.dem)): continue
        kinds.add("copy" if f.base.endswith("Address") else "assign"); src = {k: ("in", "src", k) for k in range(size)}
        for self_ in ((False, True) if f.base.endswith("=") else (False,)):
            def chk(E, st, v, I):
                m = st.mem["src" if self_ else "this"]
                E.oblige(st, all(m.get(k) == src[k] for k in list(range(fa, fa + SA)) + list(range(ft, ft + min(tl, 16)))), "a copy takes over both parts", I, "address and text" + (" (assigned to itself)" if self_ else ""))
                if f.base.endswith("="): E.oblige(st, v[0] == "P" and v[1] == ("src" if self_ else "this"), "a copy takes over both parts", I, "the assignment returns its target")
            go(f, lambda E, st: [E.block(st, "src", size, src)] * 2 if self_ else [obj(E, st), E.block(st, "src", size, src)], chk)
    full = {k: ("in", "this", k) for k in range(size)}
    f = P.one(A + "::get_port"); q = fa + port
    def chk(E, st, v, I): E.oblige(st, v[0] == "I" and list(v[2]) == [full[q + 1], full[q]], "ports are converted exactly once", I, "get_port gives the host port")
    go(f, lambda E, st: [obj(E, st, init=full)], chk)
    f = P.one(A + "::get_ip")
    def chk2(E, st, v, I): E.oblige(st, v == ("P", "this", ft) and st.mem["this"] == full, "the text is terminated", I, "get_ip gives the text that is kept")
    go(f, lambda E, st: [obj(E, st, init=full)], chk2)
    # addresses built elsewhere: nothing undefined may be copied into one
    used = [f for f in P.fns.values() if not f.base.startswith(A) and "source/" in f.j.get("file", "") and any((I.callee == A + "::Address") for I in f.all() if I.op == "call")]
    n = 0
    for f in used:
        def def_(E, st, I, a):
            g = P.fns.get(I.j.get("fn"))
            if [t for _, t in g.args] == ["ptr", "ptr"]:
                z = size if re.search(r"\((cyclone::)?Address (const)?&", g.dem) else SA
                if a[1][0] == "P" and a[1][1] is not None:
                    by = E.ld(st, a[1], z, I); E.oblige(st, None not in by[:SA], "only defined bytes are used", I, "the bytes an address is made from")
            return NotImplemented
        cur[0] = f.dem; E = BI(P, report, [(re.escape(A) + "::Address$", def_)] + models()); E.MAXSTEP = 60000; st = E.state()
        try: outs = E.run(st, f, [sym("a%d" % k, sw(t) or 64) if t != "ptr" else ("P", "arg%d" % k, 0) for k, (_, t) in enumerate(f.args)])
        except Vanished: continue
        n += 1; stats["paths"] += len(outs); stats["steps"] += E.steps; fns.update(E.fns)
        for (rule, where, d), good in E.obl.items():
            if good: ctx.ok(rule, where, "%s [%s]" % (d, f.dem))
    ctx.need(len(kinds - {"copy", "assign"}), 5, "kinds of constructors (%s)" % sorted(kinds))      # a copy without a function of its own is memberwise
    ctx.need(n, 1, "functions elsewhere that build addresses")
    ctx.cover.update({"paths": stats["paths"], "abstract steps": stats["steps"], "functions": sorted(fns), "users of addresses": n})
    ctx.assumption("contracts of inet_pton, inet_ntop, getsockname and getpeername (each outcome explored); a text of at most 16 bytes is written on success")

def shape(P):
    """size of Address, offsets of its socket address, text, length of the text; offsets of port, address and family in sockaddr_in"""
    T = layout(P, "cyclone::Address"); so = [x for x in T if x[3] == "sockaddr_in"]; tx = [x for x in T if x[3].startswith("char[")]; sa = {x[2]: x[0] for x in layout(P, "sockaddr_in")}
    if len(so) != 1 or len(tx) != 1 or so[0][1] != SA: raise Vanished("Address holds one sockaddr_in and one text")
    return max(x[0] + x[1] for x in T), so[0][0], tx[0][0], tx[0][1], sa["sin_port"], sa["sin_addr"], sa["sin_family"]
