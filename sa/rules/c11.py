"""Dispatch discipline.

Every function that runs an event callback (a slot's on_read/on_write or a
timer's on_timer) is walked over all its paths.  An invocation must be made on
a function object that lives in the caller's own frame and was copied from the
slot since the previous callback (deleting the event or growing the table then
cannot touch the running object); the slot's recorded interest must have been
loaded since the previous callback and be known to contain exactly the kind
being dispatched; the callback must be known to be present; the arguments must
be the slot's own id, descriptor and parameter read since the previous
callback, and the one condition bit that belongs to the callback; the slot
index must come from the list that the poll filled for that condition.  Slot
addresses taken before a callback are never used after it, and a timer object
is never touched after its callback ran."""
from evt import *
from ir import State
LEVEL = "other"
BIT = {"on_read": 1, "on_write": 2}
LISTAT = re.compile(r"^std::vector<unsigned int.*::(operator\[\]|at|data|begin|front|back)$|__normal_iterator<.*unsigned int.*::operator")

def key(e):
    """identity of a slot index: the access path, whichever call evaluated it"""
    e = strip(e)
    def z(x):
        if isinstance(x, tuple):
            if x and x[0] == "call": return ("call", 0) + tuple(z(y) for y in x[2:])
            return tuple(z(y) for y in x)
        return x
    return z(e)

def skey(c):
    if c is None: return None
    return ("slot", key(c[1])) if c[0] == "slot" else c[:2]

class Run(R0, Stale):
    # rs: copies frozenset((alloca expr, member, slot key)), loads frozenset((ld expr, member, slot key)),
    #     tests frozenset((call expr, negated, target)), addrs frozenset(call ids), gone frozenset(call ids), lists (read, write), passed
    def init(s): return (frozenset(), frozenset(), frozenset(), frozenset(), frozenset(), None, False)
    def keep_exprs(s, rs): return [x[0] for x in rs[1]] + [x[0] for x in rs[2]]
    def backedge(s, st, b, sx, W):
        r = st.rs
        st.rs = (frozenset(), frozenset(), frozenset(), r[3], r[4], r[5], False)
    def slotof(s, a, cp):
        """(member, slot key) of a slot member address; a whole slot copied into the frame stands for the slot"""
        m, o = chfield(a)
        if not m: return None, None
        k = skey(o)
        if k and k[0] == "local":
            for d, src in cp:
                if src[0] == "whole" and skey(chan(d)) == k: return m, src[2]
        return m, k
    def step(s, st, I, W):
        cp, ld, ts, ad, gone, lists, after = st.rs
        for c in s.use(st, I, W, gone):
            s.ck(False, "slot addresses are taken anew after a callback", I, "uses a slot address from before a callback", W)
        if I.op == "load":
            a = W.ev(st, I.o[0])
            m, k = s.slotof(a, cp)
            if m in ("event", "id", "fd", "param"):
                v = st.mem.get(a) or ("ld", I.i, a)
                st.rs = (cp, frozenset(x for x in ld if x[0] != v) | {(v, m, k)}, ts, ad, gone, lists, after)
            tm, o = fieldof(a, TM)
            if tm: s.ck(not after, "a timer is not touched after its callback", I, "reads .%s" % tm, W)
            return None
        if I.op == "store":
            a = W.ev(st, I.o[1]); v = W.ev(st, I.o[0])
            if a[0] in ("alloca", "fld", "idx", "off") and root(a)[0] == "alloca" and v[0] == "call" and re.search(r"^std::vector<unsigned int.*::c?(begin|end)$", v[2] or ""):
                s.iters.setdefault(key(root(a)), key(v[3][0])); s.iters.setdefault(key(a), key(v[3][0]))      # an iterator walks the list it was taken from
            if fieldof(a, TM)[0]: s.ck(not after, "a timer is not touched after its callback", I, "writes it", W)
            return None
        if I.op != "call": return None
        c = I.callee or ""
        args = [W.ev(st, o) for o in I.o]
        if c.endswith("::_poll") and len(args) >= 4:
            st.rs = (cp, ld, ts, ad, gone, (strip(args[1]), strip(args[2])), after); return None
        if re.search(r"vector<cyclone::Looper::channel_s.*::(operator\[\]|at|data|begin|back|front)$", c):
            st.rs = (cp, ld, ts, ad | {I.i}, gone - {I.i}, lists, after); return None
        if FCOPY.search(c) and len(args) >= 2:
            m, k = s.slotof(args[1], cp); src = ("slot", m, k) if m else None
            if not src:
                m, o = fieldof(args[1], TM)
                if m: src = ("timer", m, strip(o))
            d = strip(args[0])
            if not src:
                src = next((x[1] for x in cp if x[0] == strip(args[1])), None)      # a copy of a copy
            cp = frozenset(x for x in cp if x[0] != d)
            ts = frozenset(x for x in ts if x[2] != ("copy", d))
            if src: cp |= {(d, src)}
            st.rs = (cp, ld, ts, ad, gone, lists, after); return None
        if re.search(r"^cyclone::Looper::channel_s::(channel_s|operator=)$", c) and len(args) == 2:
            o = chan(args[1])
            if o: st.rs = (frozenset(x for x in cp if x[0] != strip(args[0])) | {(strip(args[0]), ("whole", "", skey(o)))}, ld, ts, ad, gone, lists, after)
            return None
        if FTEST.search(c):
            t = None
            for x in args:
                m, k = s.slotof(x, cp)
                if m: t = ("slot", m, k); break
                m, o = fieldof(x, TM)
                if m: t = ("timer", m, strip(o)); break
                if any(y[0] == strip(x) for y in cp): t = ("copy", strip(x)); break
            if t:
                e = ("call", I.i, c, tuple(args))
                st.rs = (cp, ld, frozenset(x for x in ts if x[0] != e) | {(e, "operator==" in c, t)}, ad, gone, lists, after)
            return None
        if FCALL.search(c): return s.fire(st, I, W, args)
        return None
    def fire(s, st, I, W, args):
        cp, ld, ts, ad, gone, lists, after = st.rs
        s.hit["call"] = s.hit.get("call", 0) + 1
        tgt = strip(args[0])
        src = next((x[1] for x in cp if x[0] == tgt and x[1][0] != "whole"), None)
        if src is None and root(args[0])[0] == "alloca":
            m, k = s.slotof(args[0], cp)
            if m and k and k[0] != "local": src = ("slot", m, k)
        s.ck(root(args[0])[0] == "alloca" and W._direct(args[0]) and src is not None, "a callback runs from a copy in the caller's own frame", I, "callback object is %s" % fmt(args[0]), W)
        if src:
            present = False
            for e, neg, t in ts:
                if t in (src, ("copy", tgt)):
                    v = W.truth(st, e)
                    if v is not None and v != neg: present = True
            s.ck(present, "only a callback that is present is run", I, src[1], W)
            if src[0] == "slot":
                m, sl = src[1], src[2]
                s.kinds.add(m)
                bit = BIT.get(m)
                on = 0
                for e, mm, k in ld:
                    if mm == "event" and k == sl: on |= bits_known(W, st, e)[0]
                s.ck(bit is not None and on & bit, "a callback runs only while the slot's interest is on", I, "%s dispatched, interest bits known on: %d" % (m, on), W)
                def own(e, names):
                    return any(x == e and mm in names and k == sl for x, mm, k in ld)
                if len(args) == 5:
                    idok = own(args[1], ("id",)) or sl[0] == "slot" and key(args[1]) == sl[1]
                    s.ck(idok, "a callback gets its own slot's id, descriptor and parameter", I, "id", W)
                    s.ck(own(args[2], ("fd",)), "a callback gets its own slot's id, descriptor and parameter", I, "descriptor", W)
                    s.ck(args[3] == ("const", bit), "a callback is told the condition it is for", I, "%s gets %s" % (m, fmt(args[3])), W)
                    s.ck(own(args[4], ("param",)), "a callback gets its own slot's id, descriptor and parameter", I, "parameter", W)
                if lists and sl[0] == "slot":
                    src_l = s.listof(sl[1])
                    if src_l is not None:
                        s.ck(src_l == key(lists[bit - 1]), "a callback is run for the list of its condition", I, m, W)
                        s.hit["list"] = s.hit.get("list", 0) + 1
        st.rs = (frozenset(), frozenset(), frozenset(), frozenset(), gone | ad, lists, True)
        return None
    def listof(s, e):
        for x in subexprs(e):
            if x[0] == "call" and LISTAT.search(x[2]): return s.iters.get(key(x[3][0]), x[3][0])
        return None
    def exit(s, st, I, W):
        pass

def run(ctx):
    P = ctx.program()
    fns = [f for f in roots(P) if not f.file.startswith("sample") and any(re.search(r"cyEvent", f.file) and FCALL.search(c.callee or "") for c in f.calls())]
    n = k = 0; hit = {}
    fns = [f for f in fns if f.base.startswith("cyclone::Looper")]
    for f in fns:
        R = Run(ctx, f); R.kinds = set(); R.iters = {}
        k += sum(1 for c in f.calls() if FCALL.search(c.callee or ""))
        W = Walker(f, R, pure=PUREV).run(); n += W.visited
        for x, y in R.hit.items(): hit[x] = hit.get(x, 0) + y
    ctx.count("abstract states", n); ctx.count("callback invocations", k)
    ctx.need(k, 5, "callback invocations in the event loop")
    ctx.need(hit.get("list", 0), 4, "invocations for a slot taken from a poll list")
    ctx.need(len(fns), 3, "functions that run callbacks")
    ctx.assumption("a callback object copied into the frame is not shared with the slot (std::function value semantics)")
