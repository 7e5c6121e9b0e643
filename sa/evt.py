"""Shared vocabulary of the event loop rules: slots, interest bits, callbacks."""
import re
from ir import *
from locks import static_ev

CH = "cyclone::Looper::channel_s"
LP = "cyclone::Looper"
TM = "cyclone::Looper::timer_s"
VECR = re.compile(r"^std::vector<.*>::(operator\[\]|at|size|begin|end|data|empty|front|back|cbegin|cend|capacity)$|^.*__normal_iterator<.*>::operator|^(__gnu_cxx::)?operator(!=|==|-|\+)|^std::function<.*>::(function|~function|operator=|operator bool)(<.*>)?$|^bool std::operator[!=]=|^std::operator[!=]=|^std::vector<(unsigned int|epoll_event).*>::(clear|vector|~vector|push_back|emplace_back|resize|reserve)(<.*>)?$|^cyclone::sys_api::(mutex_lock|mutex_unlock)$")
PUREV = re.compile(PURE.pattern + "|" + VECR.pattern)
FCALL = re.compile(r"^std::function<.*>::operator\(\)$")
FCOPY = re.compile(r"^std::function<.*>::(function|operator=)(<.*>)?$")
FTEST = re.compile(r"^std::function<.*>::operator bool$|^(bool )?std::operator[!=]=<")
GROW = re.compile(r"^std::vector<cyclone::Looper::channel_s.*>::(reserve|push_back|emplace_back|resize|insert|assign|clear|swap|erase|shrink_to_fit|operator=)(<.*>)?$")

def fieldof(e, cls):
    """(member name, object address) when the address is a member of class cls"""
    while True:
        k = e[0]
        if k == "fld":
            if e[2].startswith(cls + "."): return e[2][len(cls) + 1:], e[1]
            e = e[1]
        elif k in ("idx", "off"): e = e[1]
        elif k == "cast": e = e[2]
        else: return None, None

def chan(e):
    """slot designated by a channel address: ('slot', index expr, call id) | ('local', alloca) | ('arg', k) | None"""
    while e[0] in ("cast",): e = e[2]
    if e[0] == "call" and re.search(r"vector<cyclone::Looper::channel_s.*::(operator\[\]|at)$", e[2]): return ("slot", e[3][1], e[1])
    if e[0] == "idx":
        b = e[1]
        if b[0] == "call" and re.search(r"::(data|begin)$", b[2]): return ("slot", e[2], b[1])
        if b[0] == "ld": return chan(b[2]) if False else None
    if e[0] == "alloca": return ("local", e[1], None)
    if e[0] == "arg": return ("arg", e[1], None)
    if e[0] == "ld" and e[2][0] == "alloca": return ("local", e[2][1], None)
    return None

def chfield(e):
    """(member, slot) of a channel member address"""
    n, o = fieldof(e, CH)
    return (n, chan(o)) if n else (None, None)

def lpfield(e):
    n, o = fieldof(e, LP)
    return n

def asserting(fn, b):
    """block b only reports a failed assertion"""
    seen = set()
    while b not in seen:
        seen.add(b)
        for I in fn.blocks[b]:
            if I.op == "call" and I.callee in ("__assert_fail", "__assert_perror_fail", "abort", "std::terminate"): return True
        if len(fn.succ[b]) != 1: return False
        b = fn.succ[b][0]
    return False

def on_assert(fn, t):
    """the branch checks an assertion: what it establishes is not taken as evidence"""
    if t.op != "br" or len(t.j["t"]) != 2: return False
    if any(asserting(fn, x) for x in t.j["t"]): return True
    # one operand of && or || inside an assertion: joins in a phi that only the assertion tests
    for x in t.j["t"]:
        u = fn.term(x); ph = {I.i for I in fn.blocks[x] if I.op == "phi"}
        if u.op == "br" and len(u.j["t"]) == 2 and u.o and u.o[0][0] == "v" and u.o[0][1] in ph and on_assert(fn, u): return True
    return False

def bits_known(W, st, e, mask=3):
    """(bits known set, bits known clear) of the integer expression e"""
    on = off = 0
    if e[0] == "const": return e[1] & mask, ~e[1] & mask
    lo, hi, ex = st.facts.get(e)
    if lo == hi: return int(lo) & mask, ~int(lo) & mask
    for x, (l, h, exc) in st.facts.m.items():
        if x[0] == "bin" and x[1] == "and" and x[2] == e and x[3][0] == "const":
            m = x[3][1]
            if l == h == 0: off |= m & mask
            elif (l > 0 or h < 0 or 0 in exc) and m & (m - 1) == 0: on |= m & mask
            elif l == h: on |= int(l) & mask; off |= ~int(l) & m & mask
    return on, off

class R0:
    """base of the rules: bookkeeping of obligations"""
    def __init__(s, ctx, f): s.ctx = ctx; s.f = f; s.hit = {}
    def ck(s, c, rule, I, what, W):
        s.hit[rule] = s.hit.get(rule, 0) + 1
        return s.ctx.check(c, rule, I.where(), "%s: %s" % (s.f.short(), what), W.trace(), key="%s|%s" % (rule, s.f.short()))
    def init(s): return ()
    def step(s, st, I, W): return None
    def exit(s, st, I, W): pass

def roots(P): return [f for f in P.fns.values() if not (f.cand and f.ncall > 0 and f.ntaken == 0) and not f.j.get("fwd")]

def argx(f, k): return ("arg", k, f.args[k][0])

def slotaddr(e):
    """the channel address inside an access path (member address, callback member ...)"""
    while True:
        c = chan(e)
        if c and c[0] != "arg": return c, e
        if c and e[0] == "arg": return c, e
        if e[0] in ("fld", "off"): e = e[1]
        elif e[0] == "idx": e = e[1]
        elif e[0] == "cast": e = e[2]
        else: return None, None

class Stale:
    """slot addresses taken before the table grew are dead"""
    def use(s, st, I, W, gone):
        """call ids of slot addresses this instruction dereferences that are in gone"""
        ops = []
        if I.op in ("load",): ops = [W.ev(st, I.o[0])]
        elif I.op == "store": ops = [W.ev(st, I.o[1])]
        elif I.op == "call": ops = [W.ev(st, o) for o in I.o]
        out = []
        for e in ops:
            for x in subexprs(e):
                if x[0] == "ld": continue
                c, a = (chan(x), x) if x[0] in ("call", "idx") else (None, None)
                if c and c[0] == "slot" and c[2] in gone: out.append(c)
        return out

def read_members(P):
    """members of a slot that some library function reads (with the reading function)"""
    out = {}
    for f in P.fns.values():
        if f.file.startswith("sample"): continue
        for I in f.all():
            n = None
            if I.op == "load": n, _ = chfield(static_ev(f, I.o[0]))
            elif I.op == "call" and I.o and (FCALL.search(I.callee or "") or FTEST.search(I.callee or "") or FCOPY.search(I.callee or "")):
                k = 1 if FCOPY.search(I.callee) and len(I.o) > 1 else 0
                n, _ = fieldof(static_ev(f, I.o[k]), CH)
            if n: out.setdefault(n, set()).add(f.base)
    return out
