"""Three analyses. (1) Path-sensitive dataflow over the compare-exchange loops of every extreme-value update: the values observed and
the order relations known on each path decide that a recorded value is replaced only by a more extreme one, only by the updated value, only
atomically, and that no path returns before the value is recorded or a value at least as extreme has been observed. (2) Lock typestate of
every period statistic built with locking: each access to the sample queue happens with the object's own lock held. (3) Abstract
interpretation (polyhedra) of push and the sum query with the queue modelled by its contract (C03): of n samples in time order the first k are too
old for a symbolic k; dropping may only touch those, reads only existing ones, and the returned sum and count cover exactly the rest."""
from pstat import *
LEVEL = "other"

def run(ctx):
    P = ctx.program("stat"); pp = ctx.program()
    # extreme values
    cl = sorted({m.group(1) for f in P.fns.values() for m in [re.match(r"^(cyclone::MinMaxValue<[^:]*>)::update$", f.base)] if m})
    done = 0
    for c in cl:
        pat = r"^cyclone::MinMaxValue(<.*>)?\.\w+$"; ty = re.match(r".*<(.*)>", c).group(1)
        if ty not in ("int", "unsigned long", "long", "unsigned int"): raise Vanished("extreme values of type " + ty)
        sg = "u" if ty.startswith("unsigned") else "s"; w = 64 if "long" in ty else 32
        role = {}
        for g in ("max", "min"):
            f = P.one(c + "::" + g)
            fs = {fldof(static_ev(f, I.o[0]), pat) for I in f.all() if I.op == "load"} - {None}
            ok = len(fs) == 1 and all(I.j.get("at") for I in f.all() if I.op == "load" and fldof(static_ev(f, I.o[0]), pat))
            ctx.check(ok, "a query returns one recorded value", "%s:%d" % (f.file, f.line), "%s reads its value atomically" % f.short())
            if len(fs) == 1: role[g] = fs.pop()
        if len(set(role.values())) != 2: ctx.bad("maximum and minimum are separate", P.one(c + "::max").file, c); continue
        f = P.one(c + "::update"); R = Upd(ctx, f, pat, role["max"], role["min"], sg)
        W = Walker(f, R).run(); ctx.count("abstract states", W.visited); done += 1
        ctx.need(R.n, 1, "returns of " + f.short())
        lo, hi = (0, (1 << w) - 1) if sg == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        for f in P.fns.values():
            if f.base != c + "::MinMaxValue": continue
            got = {}
            for I in f.all():
                if I.op == "store":
                    n = fldof(static_ev(f, I.o[1]), pat)
                    if n: got.setdefault(n, set()).add(static_ev(f, I.o[0]))
            for g, ext in (("max", lo), ("min", hi)):
                vs = got.get(role[g], set())
                if len(f.args) == 1: ok = bool(vs) and all(v[0] == "const" and (v[1] - ext) % (1 << w) == 0 for v in vs)
                else: ok = bool(vs) and all(strip(v)[0] == "ld" and strip(v)[-1][0] == "arg" and strip(v)[-1][1] == 1 for v in vs)
                ctx.check(ok, "initial values", "%s:%d" % (f.file, f.line), "%s: the %s starts as %s" % (f.short(), g, "the neutral value" if len(f.args) == 1 else "the initial value"))
    ctx.need(done, 2, "extreme value types")
    # locking
    pcs = sorted({m.group(1) for f in P.fns.values() for m in [re.match(r"^(cyclone::PeriodValue<[^:]*>)::(push|sum_and_counts)$", f.base)] if m})
    pcs = [c for c in pcs if re.search(r", true,", c)]
    n = 0; full = []
    for c in pcs:
        pat = r"^cyclone::PeriodValue(<.*>)?\.\w+$"
        t = layout(P, c)
        qf = [x for i, f in enumerate(t) if "RingQueue" in f[3] for x in (f[2], "f%d" % i)]
        ctor = [f for f in P.fns.values() if f.base == c + "::PeriodValue" and any(I.op == "call" and (I.callee or "").endswith("mutex_create") for I in f.all())]
        lock = {fldof(static_ev(f, I.o[1]), pat) for f in ctor for I in f.all() if I.op == "store" and static_ev(f, I.o[0])[0] == "call" and static_ev(f, I.o[0])[2].endswith("mutex_create")} - {None}
        if not ctor: continue
        if not ctx.check(len(lock) == 1, "a locking statistic owns one lock", "%s:%d" % (ctor[0].file, ctor[0].line), c): continue
        lock = lock.pop()
        if len(qf) != 2: raise Vanished("sample queue of " + c)
        for f in P.fns.values():
            if not re.match(re.escape(c) + r"::(push|sum_and_counts|total_counts|get_time_period)$", f.base): continue
            R = Held(ctx, f, lock, qf, pat); W = Walker(f, R).run(); ctx.count("abstract states", W.visited); n += R.n
        d = [f for f in P.fns.values() if f.base == c + "::~PeriodValue"]
        for f in d:
            ctx.check(any(I.op == "call" and (I.callee or "").endswith("mutex_destroy") for I in f.all()), "a locking statistic owns one lock", "%s:%d" % (f.file, f.line), "%s destroys it" % f.short())
        full.append((c, t, lock))
    ctx.need(n, 6, "sample accesses"); ctx.need(len(full), 1, "statistics with locking")
    # samples
    k = 0
    for c, t, lock in full:
        if not P.has(c + "::push") or not P.has(c + "::sum_and_counts"): continue
        pf = [x[2] for x in t if x[3].split("=")[-1] == "int"]
        g = P.one(c + "::get_time_period") if P.has(c + "::get_time_period") else None
        if len(pf) != 1: raise Vanished("period of " + c)
        A = PV(P, c, lambda rule, where, detail, trace: ctx.bad(rule, where, detail, trace, key="%s|%s" % (rule, detail)))
        for b in ("push", "sum_and_counts"): k += A.run(b, pf[0])
        for rule, where, ok in A.obl:
            if ok: ctx.ok(rule, where, c)
        if A.failed: break
    ctx.need(k, 12 if not full or not A.failed else 0, "sample obligations")
    ctx.assumption("the times passed to push never decrease, so the samples are in time order; sample counts stay below 2^31 and times below 2^50 ms")
    ctx.assumption("the sample queue behaves as its contract (property C03) says")
