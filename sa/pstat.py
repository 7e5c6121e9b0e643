"""Concurrent extreme values and period statistics (C05)."""
import re
from ir import *
from locks import static_ev
import num
from num import Num, St, Lin, V, fresh, Refuted, disarm
import ring

def fldof(e, pat):
    """member of the object's own class an address lies in"""
    while e[0] in ("fld", "idx", "off", "cast"):
        if e[0] == "fld" and re.match(pat, e[2]): return e[2].rsplit(".", 1)[1]
        e = e[2] if e[0] == "cast" else e[1]
    return None

INV = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq"}
SW = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "eq": "eq", "ne": "ne"}

class Upd:
    """rs = (fields settled, observed (field, value) pairs)"""
    def __init__(s, ctx, f, pat, mx, mn, sg): s.ctx = ctx; s.f = f; s.pat = pat; s.R = {mx: "g", mn: "l"}; s.sg = sg; s.n = 0; s.cas = 0
    def init(s): return ((), ())
    def keep_exprs(s, rs): return [v for f, v in rs[1]]
    def fld(s, a): return fldof(a, s.pat)
    def isval(s, e): return e[0] == "ld" and e[2][0] == "arg" and e[2][1] == 1
    def rel(s, st, snap):
        """order relations known between the updated value and an observed one"""
        out = set()
        for e, (lo, hi, ex) in st.facts.m.items():
            if e[0] != "cmp" or lo != hi: continue
            p, a, b = e[1], e[2], e[3]
            if not lo: p = INV[p]
            if s.isval(a) and b == snap: out.add(p)
            elif s.isval(b) and a == snap: out.add(SW[p])
        return out
    def ck(s, c, rule, I, d, W): return s.ctx.check(c, rule, I.where(), "%s: %s" % (s.f.short(), d), W.trace(), key="%s|%s|%s" % (rule, s.f.short(), d))
    def step(s, st, I, W):
        done, obs = st.rs
        if I.op == "load":
            n = s.fld(W.ev(st, I.o[0]))
            if n in s.R: 
                s.ck(bool(I.j.get("at")), "atomic access", I, "the recorded value is read atomically", W)
                st.rs = (done, tuple(x for x in obs if not mentions(x[1], I.i)) + ((n, ("ld", I.i, W.ev(st, I.o[0]))),))
        elif I.op == "store":
            n = s.fld(W.ev(st, I.o[1]))
            if n in s.R: s.ck(False, "recorded values change only by compare-exchange", I, "a store can overwrite another thread's update", W)
        elif I.op == "atomicrmw":
            n = s.fld(W.ev(st, I.o[0]))
            if n in s.R:
                good = I.j["rmw"] in ({"g": ("max", "umax"), "l": ("min", "umin")}[s.R[n]]) and s.isval(W.ev(st, I.o[1]))
                s.ck(good, "recorded values change only by compare-exchange", I, "%s overwrites another thread's update" % I.j["rmw"], W)
                if good: st.rs = (done + (n,), obs)
        elif I.op == "cmpxchg":
            a = W.ev(st, I.o[0]); n = s.fld(a)
            if n not in s.R: return None
            s.cas += 1
            exp = W.ev(st, I.o[1]); new = W.ev(st, I.o[2])
            s.ck(s.isval(new), "only updated values are recorded", I, "the new value is the updated one", W)
            r = s.rel(st, exp)
            want = {"g": {s.sg + "gt", s.sg + "ge"}, "l": {s.sg + "lt", s.sg + "le"}}[s.R[n]]
            s.ck(bool(r & want), "a recorded value is replaced only by a more extreme one", I, "the path to the exchange knows that the value is %s than the one replaced" % ("larger" if s.R[n] == "g" else "smaller"), W)
            obs = tuple(x for x in obs if not mentions(x[1], I.i))
            t = st.copy(); fl = st; x = ("xv", ("val", I.i), (1,))
            W.kill_val(fl, I.i); W.kill_val(t, I.i)
            fl.facts.assume(x, "eq", 0); t.facts.assume(x, "eq", 1)
            t.rs = (done + (n,) if n not in done else done, obs); fl.rs = (done, obs + ((n, ("xv", ("val", I.i), (0,))),))
            return [t, fl]
        return None
    def merged(s, i, seen=None):
        """field whose observed values alone meet in a phi"""
        seen = set() if seen is None else seen
        if i in seen: return set()
        seen.add(i); J = s.f.ins[i]
        if J.op == "phi": return set().union(*(s.merged(v[1], seen) if v[0] == "v" else {None} for v, _ in J.j["in"]))
        if J.op == "load": return {s.fld(static_ev(s.f, J.o[0]))}
        if J.op == "extractvalue" and J.o[0][0] == "v" and s.f.ins[J.o[0][1]].op == "cmpxchg" and tuple(J.j["ix"]) == (0,): return {s.fld(static_ev(s.f, s.f.ins[J.o[0][1]].o[0]))}
        return {None}
    def settle(s, st):
        done, obs = st.rs
        for n, k in s.R.items():
            want = {"g": {s.sg + "lt", s.sg + "le", "eq"}, "l": {s.sg + "gt", s.sg + "ge", "eq"}}[k]
            ph = [(n, x) for e in st.facts.m if e[0] == "cmp" for x in e[2:4] if x[0] == "phi" and s.merged(x[1]) == {n}]
            if n not in done and any(f == n and s.rel(st, v) & want for f, v in obs + tuple(ph)): done = tuple(sorted(done + (n,)))
        st.rs = (done, obs)
    def branch(s, st, t, c, val, W): s.settle(st)
    def exit(s, st, I, W):
        s.settle(st); done, obs = st.rs; s.n += 1
        for n, k in s.R.items():
            s.ck(n in done, "an update is never lost", I, "on return the value was recorded as the %s or one at least as extreme had been observed" % ("maximum" if k == "g" else "minimum"), W)

def layout(P, cls):
    n = lambda x: re.sub(r"\b(\d+)[a-z]+\b", r"\1", x.lower())
    for k, t in P.types.items():
        if n(k) == n(cls): return t
    raise Vanished("type %s not found" % cls)

class Held:
    """samples are touched only with the lock of the object held; rs = held or not"""
    def __init__(s, ctx, f, lockf, qf, pat): s.ctx = ctx; s.f = f; s.lockf = lockf; s.qf = qf; s.pat = pat; s.n = 0
    def init(s): return 0
    def mine(s, e, n):
        e = strip(e)
        if e[0] == "ld": e = e[-1]
        return fldof(e, s.pat) == n
    def step(s, st, I, W):
        touch = None
        if I.op == "call":
            c = I.callee or ""
            if c.endswith("sys_api::mutex_lock"):
                if s.mine(W.ev(st, I.o[0]), s.lockf): st.rs = 1
                return None
            if c.endswith("sys_api::mutex_unlock"):
                if s.mine(W.ev(st, I.o[0]), s.lockf): st.rs = 0
                return None
            for o in I.o:
                a = W.ev(st, o)
                if a[0] in ("fld", "idx", "off") and fldof(a, s.pat) in s.qf: touch = c
        elif I.op == "load" and fldof(W.ev(st, I.o[0]), s.pat) in s.qf: touch = "load"
        elif I.op == "store" and fldof(W.ev(st, I.o[1]), s.pat) in s.qf: touch = "store"
        if touch:
            s.n += 1
            s.ctx.check(st.rs == 1, "samples are used only under the lock", I.where(), "%s: %s" % (s.f.short(), touch.split("::")[-1]), W.trace(), key="lock|%s|%s" % (s.f.short(), touch.split("::")[-1]))
        return None
    def exit(s, st, I, W):
        s.ctx.check(st.rs == 0, "the lock is free on return", I.where(), s.f.short(), W.trace(), key="unlock|" + s.f.short())

# ---------------- which samples
class PNum(Num):
    elems = {}
    def onload(s, st, p, ty, I):
        b = p[1]
        if isinstance(b, str) and b.startswith("elem#") and p[2].is_const():
            i = st.g["e:" + b]
            if p[2].c == 0:
                if "E" not in st.g: s.report(st, "samples are judged by the current time", I, "the time limit is not yet known"); return []
                out = []
                for x, exp in s.order(st, i + 1, st.g["k"]):
                    v = V(fresh("time")); x.cons.add(v); x.cons.add(-v + (1 << 60))
                    # the first k samples are too old
                    if not x.assume(x.g["E"] - 1 - v if exp else v - x.g["E"]): continue
                    out.append((x, ("i", v, 64)))
                return out
            if p[2].c == 8:
                w = s.tyw(ty)
                v = V(fresh("val")); st.cons.add(v); st.cons.add(-v + ((1 << w) - 1))
                if st.enteq(i - st.g["c"]): st.g["S"] = st.g["S"] + v; st.g["c"] = st.g["c"] + 1; st.g["vis"] = "yes"
                else: st.g["off"] = "off"
                return [(st, ("i", v, w))]
        return None
    def hints(s, st, h):
        yield st.g["k"]; yield st.g["n"] - st.g["k"]
        for I in s.fn.blocks[h]:
            if I.op != "phi": break
            v = st.env.get(I.i)
            if v is None or v[0] != "i": continue
            for e in (st.g["k"], st.g["n"], st.g["n"] - 1, st.g["k"] - 1, Lin(0)): yield v[1] - e; yield e - v[1]
    def moremeasures(s, st, h):
        ph = [(I.i, st.env.get(I.i)) for I in s.fn.blocks[h] if I.op == "phi"]
        ph = [(i, v[1]) for i, v in ph if v and v[0] == "i"]
        for i, v in ph:
            yield "rest%d" % i, st.g["n"] - v
            for j, w in ph:
                if i != j: yield "gap%d-%d" % (i, j), v - w
        yield "visits", st.g["n"] - st.g["c"]

LIM = 1 << 31
def models(A):
    q = r"^cyclone::RingQueue<std::pair<.*>>::"
    def isq(E, a): 
        if a[0] != "p" or a[1] != "this" or not a[2].is_const() or a[2].c != A.qoff: raise Vanished("another queue is used in %s" % E.fn.base)
    def size(E, st, I, a): isq(E, a[0]); return [(st, ("i", st.g["n"], 64))]
    def empty(E, st, I, a):
        isq(E, a[0]); return [(s, ("i", Lin(0 if some else 1), 1)) for s, some in E.order(st, Lin(1), st.g["n"])]
    def elem(E, st, i, I):
        b = "elem#%d" % I.i
        E.newblk(st, b, 16, "obj", const=True); st.g["e:" + b] = i
        return ("p", b, Lin(0))
    def at(pos):
        def f(E, st, I, a):
            isq(E, a[0]); out = []
            for s, i in (E.usize(st, a[1]) if pos == "get" else [(st, Lin(0) if pos == "front" else st.g["n"] - 1)]):
                E.oblige(s, [i, s.g["n"] - 1 - i], "only existing samples are read", I, "%s()" % pos)
                if s.assume(i) and s.assume(s.g["n"] - 1 - i): out.append((s, elem(E, s, i, I)))
            return out
        return f
    def drop(E, s, m, I):
        E.oblige(s, [s.g["k"] - m], "a sample is dropped only when it is older than the period", I, "samples removed")
        if not s.assume(s.g["k"] - m): return None
        s.g["n"] = s.g["n"] - m; s.g["k"] = s.g["k"] - m
        for g in list(s.g):
            if isinstance(g, str) and g.startswith("e:"): s.g[g] = s.g[g] - m
        if not s.g.get("vis"): pass
        return s
    def pop(E, st, I, a):
        isq(E, a[0]); out = []
        for s, m in (E.usize(st, a[1]) if len(a) > 1 else [(st, Lin(1))]):
            for x, le in E.order(s, m, s.g["n"]):
                y = drop(E, x, m if le else x.g["n"], I)
                if y is not None: out.append((y, None))
        return out
    def reset(E, st, I, a):
        isq(E, a[0]); y = drop(E, st, st.g["n"], I); return [(y, None)] if y is not None else []
    def push(E, st, I, a):
        isq(E, a[0])
        w = A.w
        t = E.load(st, a[1], "i64", I, 8)[0][1]; v = E.load(st, ("p", a[1][1], a[1][2] + 8), "i%d" % w, I, w // 8)[0][1]
        now = st.g.get("now"); good = now is not None and t[0] == "i" and st.enteq(t[1] - now)
        E.seen_obl[("a sample is recorded with its time", I.i, "")] = good
        if not good: E.report(st, "a sample is recorded with its time", I, "the time is the caller's, or the current one in milliseconds when none is given")
        good = v[0] == "i" and st.enteq(v[1] - st.g["value"])
        E.seen_obl[("the pushed value is recorded", I.i, "")] = good
        if not good: E.report(st, "the pushed value is recorded", I, "the recorded value is the one given")
        st.g["pushes"] = st.g.get("pushes", 0) + 1; st.g["n"] = st.g["n"] + 1
        return [(st, None)]
    def free(E, st, I, a):
        isq(E, a[0]); v = V(fresh("free")); st.cons.add(v); st.cons.add(-v + LIM); return [(st, ("i", v, 64))]
    def now(E, st, I, a):
        T, r = V(fresh("ms")), V(fresh("us")); c = st.cons
        c.add(T - (1 << 20)); c.add(-T + (1 << 50)); c.add(r); c.add(-r + 999)
        if st.g["mode"] == "clock" and "now" not in st.g: st.g["now"] = T; st.g["E"] = T - st.g["period"]
        return [(st, ("i", T * 1000 + r, 64))]
    def nop(E, st, I, a): return [(st, None)]
    def fctor(E, st, I, a):
        m = re.search(r"::function<(.*), void>\(", I.j.get("dem", "") or "") if False else None
        if len(a) < 2 or a[1][0] != "p": raise Vanished("walk function of %s" % E.fn.base)
        lam = A.lambdas(E.fn, I)
        st.g["fn:%s:%s" % (a[0][1], a[0][2].c)] = (lam, a[1]); return [(st, None)]
    def walk(back):
        def f(E, st, I, a):
            isq(E, a[0])
            rec = st.g.get("fn:%s:%s" % (a[1][1], a[1][2].c))
            if rec is None: raise Vanished("walk function of %s" % E.fn.base)
            lam, obj = rec; L = A.P.fns[lam]
            # one call, on arbitrary contents of the captured variables: every cell may change by a constant plus the sample's value
            caps = [k for k in st.mem if k[0] == obj[1] and st.mem[k][0][0] == "p"]
            cells = [(st.mem[k][0][1], st.mem[k][0][2].c) for k in caps]
            x = st.copy(); old = {}
            for c in cells:
                if c not in x.mem: raise Vanished("captured variable of %s" % E.fn.base)
                v, sz = x.mem[c]; n = V(fresh("acc")); old[c] = n
                if v[0] == "i": x.cons.add(n); x.cons.add(-n + (LIM if sz == 4 else (1 << 62))); x.mem[c] = (("i", n, v[2]), sz)
            i = V(fresh("i")); x.cons.add(i); x.g["c"] = i; S = V(fresh("S")); x.g["S"] = S; x.g["n"] = V(fresh("n")); x.cons.add(x.g["n"] - 1 - i); x.g["k"] = Lin(0)
            e = "elem#" + str(fresh("e")); E.newblk(x, e, 16, "obj", const=True); x.g["e:" + e] = i
            x.env = {("a", 0): obj, ("a", 1): ("i", i, 64), ("a", 2): ("p", e, Lin(0))}; x.loops = {}
            sub = PNum(L, E.sink, E.models, name=E.name + " (walk)"); sub.run(x)
            if len(sub.rets) != 1: raise Vanished("the walk function of %s branches" % E.fn.base)
            y, v, T = sub.rets[0]
            go = v is not None and v[0] == "i" and (y.enteq(v[1] - 1) or y.enteq(v[1] + 1))
            E.seen_obl[("every remaining sample is visited", I.i, "go on")] = go
            if not go: E.report(st, "every remaining sample is visited", I, "the walk stops before the last sample"); return []
            rest = st.g["n"]; tot = V(fresh("tot"))
            for c in cells:
                if c not in y.mem or st.mem[c][0][0] != "i": continue
                nv = y.mem[c][0][1]; d = nv - old[c]; sz = st.mem[c][1]; w = st.mem[c][0][2]; base = st.mem[c][0][1]
                dS = y.g["S"] - S
                if y.enteq(d): eff = Lin(0)
                elif y.enteq(d - dS): eff = tot
                elif y.enteq(d - 1): eff = rest
                else: st.mem[c] = (E.unknown(st, "i%d" % w), sz); continue
                st.mem[c] = (("i", base + eff, w), sz)
            if y.g.get("vis"): st.g["S"] = st.g["S"] + tot
            else: st.g["S"] = st.g["S"] + V(fresh("unread"))
            st.g["c"] = st.g["n"]
            return [(st, None)]
        return f
    X = re.compile
    return [(X(q + "size$"), size), (X(q + "empty$"), empty), (X(q + "get$"), at("get")), (X(q + "front$"), at("front")), (X(q + "back$"), at("back")), (X(q + "pop$"), pop), (X(q + "reset$"), reset),
            (X(q + "push$"), push), (X(q + "(get_free_size|capacity)$"), free), (X(q + "walk(_reserve)?$"), walk(False)), (X(r"performance_time_now$"), now), (X(r"mutex_(un)?lock$"), nop),
            (X(r"^std::function<.*>::function"), fctor), (X(r"^std::function<.*>::~function"), nop), (X(r"::~?AutoLock$"), nop)]

class PV:
    def __init__(s, P, cls, sink):
        s.P = P; s.cls = cls; s.sink = sink; s.obl = []; s.failed = False
        t = layout(P, cls)
        s.off = {f[2]: f[0] for f in t}; s.size = t[-1][0] + t[-1][1]
        qs = [f for f in t if f[3].startswith("cyclone::RingQueue<") or "RingQueue" in f[3]]
        if len(qs) != 1: raise Vanished("sample queue of %s" % cls)
        s.qf = qs[0][2]; s.qoff = qs[0][0]
        s.valty = {"long": 64, "unsigned long": 64, "int": 32, "unsigned int": 32}.get(re.match(r".*?<([^,>]+)", cls).group(1))
        if s.valty is None: raise Vanished("value type of " + cls)
        s.w = s.valty
    def lambdas(s, fn, I):
        ls = [n for n, f in s.P.fns.items() if f.dem.startswith(fn.dem.split("(")[0] + "(") and "lambda" in f.dem and re.search(r"::operator\(\)\(unsigned long", f.dem)]
        if len(ls) != 1: raise Vanished("%d walk functions in %s" % (len(ls), fn.base))
        return ls[0]
    def run(s, base, period_f):
        f = s.P.one(s.cls + "::" + base); n = 0
        if s.failed: return n
        for mode in ("given", "clock"):
            done = False
            for how in (0, 1, 2):
                bad = []
                try: E = s.case(f, base, mode, lambda *a: bad.append(a), how, period_f); v = None
                except Vanished as e: E = None; v = e
                if first_(how) : keep = (bad, E, v)
                if not bad and E is not None: keep = (bad, E, v); break
            bad, E, v = keep
            for b in bad: s.sink(*b); s.failed = True
            if E is None and not bad: raise v
            if s.failed: return n
            if E is not None:
                for k, ok in E.seen_obl.items(): s.obl.append((k[0], f.ins[k[1]].where() if k[1] in f.ins else f.base, ok)); n += 1
        return n
    def case(s, f, base, mode, sink, how, period_f):
        st = St(); E = PNum(f, sink, models(s), name="%s::%s" % ("PeriodValue", base)); E.BUDGET = 12; E.UNROLL = how
        E.newblk(st, "this", s.size, "obj")
        per = V(fresh("period")); st.cons.add(per); st.cons.add(-per + (LIM - 1))
        st.mem[("this", s.off[period_f])] = (("i", per, 32), 4); st.g["period"] = per
        n, k = V(fresh("n")), V(fresh("old")); c = st.cons
        c.add(n); c.add(-n + (LIM - 2)); c.add(k); c.add(n - k)
        st.g["n"] = n; st.g["k"] = k; st.g["c"] = Lin(0); st.g["S"] = Lin(0); st.g["mode"] = mode
        ti = len(f.args) - 1
        if base == "push":
            v = V(fresh("value")); c.add(v); c.add(-v + ((1 << s.w) - 1)); st.g["value"] = v
            E.newblk(st, "value", s.w // 8, "obj", const=True); st.mem[("value", 0)] = (("i", v, s.w), s.w // 8); st.env[("a", 1)] = ("p", "value", Lin(0))
        st.env[("a", 0)] = ("p", "this", Lin(0))
        if mode == "given":
            t = V(fresh("given")); c.add(t - 1); c.add(-t + (1 << 50)); st.env[("a", ti)] = ("i", t, 64); st.g["now"] = t; st.g["E"] = t - per
        else: st.env[("a", ti)] = ("i", Lin(0), 64)
        try:
            E.run(st)
            for x, v, T in E.rets: s.post(E, base, x, v, T, f)
            if not E.rets and not E.tbad: raise Vanished("%s never returns" % base)
        except Refuted: pass
        finally: disarm()
        return E
    def post(s, E, base, x, v, T, f):
        def must(c, rule, d):
            k = (rule, T.i, d); E.seen_obl[k] = E.seen_obl.get(k, True) and c
            if not c: E.report(x, rule, T, d)
        if base == "push": must(x.g.get("pushes", 0) == 1, "every sample is recorded once", "one sample is added per push"); return
        # the returned pair
        if v is None or v[0] != "agg" or len(v) != 3: raise Vanished("the pair returned by %s" % f.base)
        S, C = [e for k, e in sorted(v[1:], key=lambda z: z[0])]
        must(not x.g.get("off"), "every remaining sample is visited", "samples are visited in order, each once")
        if not x.ent(x.g["n"]*-1): must(x.enteq(x.g["k"]), "the sum covers exactly the samples of the period", "no sample older than the period is left when the sum is taken")
        must(x.enteq(x.g["c"] - x.g["n"]), "every remaining sample is visited", "all samples left are summed")
        must(C[0] == "i" and x.enteq(C[1] - x.g["n"]), "sum and count come from the same samples", "the count is the number of samples summed")
        must(S[0] == "i" and x.enteq(S[1] - x.g["S"]), "sum and count come from the same samples", "the sum adds the value of every sample once")
def first_(how): return how == 0
