"""Effect analysis: for every point where a lock is held (path-sensitive lock
typestate) no user-supplied function object may be invoked and nothing that
waits without bound may be called, directly or through any callee (transitive
effects over the call graph, virtual calls resolved by class hierarchy); the
lock-order graph over all functions must be acyclic."""
from locks import *
LEVEL = "other"

def run(ctx):
    edges = {}
    total = 0
    for name, P in [("library", ctx.program())] + [("sample " + n, p) for n, p in ctx.samples()]:
        eff = Effects(P)
        ncb = sum(1 for f in P.fns.values() for I in f.calls() if FUNC_CALL.match(I.callee or "") and f.j["repo"])
        for f in lock_functions(P):
            hits = []
            def on_call(kind, held, I, W, detail):
                hits.append(I.i)
                ctx.bad("no %s under lock" % kind, I.where(), "in %s: %s" % (f.short(), detail), W.trace(), key="%s|%s|%s" % (kind, f.short(), detail))
            r = LockRule(f, lambda *a: None, eff, on_call)
            W = Walker(f, r).run()
            total += 1
            ctx.count("abstract states", W.visited)
            n = sum(1 for I in f.calls())
            ctx.count("call sites examined for effects under a lock", n)
            if not hits: ctx.ok("no callback and no unbounded wait under a lock", f.short() + " @" + f.file)
            for e, w in r.edges.items(): edges.setdefault(e, w)
        if name == "library":
            ctx.need(ncb, 20, "callback invocations in the library")
            ctx.need(total, 15, "library functions that take locks")
    g = {}
    for (a, b), w in edges.items():
        g.setdefault(a, set()).add(b)
    ctx.cover["lock order edges"] = ["%s -> %s (%s)" % (a, b, w) for (a, b), w in sorted(edges.items())]
    # cycle search
    color = {}
    def dfs(u, path):
        color[u] = 1
        for v in sorted(g.get(u, ())):
            if color.get(v) == 1:
                cyc = path[path.index(v):] + [v] if v in path else [u, v]
                ctx.bad("lock order acyclic", edges[(u, v)], "lock order cycle " + " -> ".join(cyc), key="cycle|" + "|".join(sorted(set(cyc))))
            elif v not in color: dfs(v, path + [v])
        color[u] = 2
    for u in sorted(g):
        if u not in color: dfs(u, [u])
    for e, w in sorted(edges.items()): ctx.ok("lock order acyclic", w, "%s before %s" % e)
