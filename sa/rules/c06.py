"""Typestate analysis (path-sensitive forward dataflow over every library and
sample function): a lock is a two-state object; acquire/release/destroy
transitions are checked on every control path, and a call made while a lock is
held is checked against the transitive set of locks the callee may acquire."""
from locks import *
LEVEL = "other"

def prims(ctx, P):
    """the lock primitives do what their names say on every path"""
    def one(base, want):
        f = P.one("cyclone::sys_api::" + base)
        seen = {}
        class R:
            def init(s): return 0
            def step(s, st, I, W):
                if I.op == "call" and (I.callee in LOCK or I.callee in UNLOCK or I.callee in TRY or I.callee in DESTROY):
                    r = root(strip(W.ev(st, I.o[0])))
                    if I.callee != want or r != ("arg", 0, f.args[0][0]):
                        ctx.bad("lock-primitive", I.where(), "%s performs %s on %s" % (base, I.callee, fmt(W.ev(st, I.o[0]))), W.trace())
                    st.rs = st.rs + 1
            def exit(s, st, I, W):
                ctx.check(st.rs == 1, "lock-primitive", f.short(), "%s operates on its mutex exactly once on every path" % base, W.trace())
        Walker(f, R()).run()
    one("mutex_lock", "pthread_mutex_lock"); one("mutex_unlock", "pthread_mutex_unlock"); one("mutex_destroy", "pthread_mutex_destroy")
    f = P.one("cyclone::sys_api::mutex_try_lock")
    class T:
        def init(s): return 0
        def step(s, st, I, W):
            if I.op == "call" and I.callee in TRY:
                call = ("call", I.i, I.callee, tuple(W.ev(st, a) for a in I.o))
                s1 = st.copy(); s2 = st.copy()
                s1.facts.assume(call, "eq", 0); s2.facts.assume(call, "ne", 0); s1.rs = 1
                return [s1, s2]
            if I.op == "call" and (I.callee in LOCK or I.callee in UNLOCK):
                ctx.bad("lock-primitive", I.where(), "mutex_try_lock performs %s" % I.callee)
        def exit(s, st, I, W):
            v = W.truth(st, W.ev(st, I.o[0]))
            ctx.check(v is not None and v == (st.rs == 1), "lock-primitive", "sys_api::mutex_try_lock", "mutex_try_lock returns true exactly when it acquired the mutex", W.trace())
    Walker(f, T()).run()

def run(ctx):
    nf = na = 0
    progs = [("library", ctx.program())] + [("sample " + n, p) for n, p in ctx.samples()]
    for name, P in progs:
        eff = Effects(P)
        for f in lock_functions(P):
            nf += 1
            n0 = len(ctx.viol)
            def sink(rule, where, detail, trace): ctx.bad(rule, where, detail, trace, key="%s|%s|%s" % (rule, f.short(), detail))
            def on_call(*a): pass
            r = LockRule(f, sink, eff, on_call)
            W = Walker(f, r).run()
            ctx.count("paths: abstract states", W.visited)
            for i in sorted(r.acqs | r.rels):
                na += 1
                ctx.ok("lock operation balanced", f.ins[i].where(), f.short())
            for (a, b), where in sorted(r.edges.items()):
                ctx.check(a != b, "no re-acquisition through calls", where, "%s may acquire %s again while it is held" % (f.short(), a), key="reacquire|%s|%s" % (f.short(), a))
        if name == "library": 
            prims(ctx, P)
            ctx.need(nf, 15, "library functions with lock operations"); ctx.need(na, 40, "library lock operations")
