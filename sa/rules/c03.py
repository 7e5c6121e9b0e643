"""Abstract interpretation of every ring queue operation in a disjunctive polyhedral domain (linear integer constraints, powers of two,
content segments): from the class invariant with symbolic capacity, indices, arguments and both kinds of queue, every element access must
hit an element inside live storage, the storage is replaced and freed exactly once, loops have a decreasing measure, the invariant holds
again on return, and the elements afterwards are exactly those the contract names, as positions of the sequence pushed. Walks are followed
call by call: the n-th call gets the n-th element and its index. Pushing an element of the queue itself is one of the cases."""
from rq import analyse
LEVEL = "proof"

def run(ctx):
    P = ctx.program("core")
    def sink(rule, where, detail, trace): ctx.bad(rule, where, detail, trace, key="%s|%s" % (rule, detail.split(":")[0]))
    A = analyse(P, sink); n = 0
    for rule, where, ok, method in A.obl:
        if ok: n += 1; ctx.ok(rule, where, method)
    ctx.need(len(A.methods), 12, "ring queue operations analysed")
    ctx.need(n, 60, "obligations")
    for k, v in A.stats.items(): ctx.cover["abstract " + k] = v
    ctx.assumption("no storage is larger than 2^47 bytes; allocation does not fail")
    ctx.assumption("std::vector behaves as the C++ standard says (resize keeps the first elements, a larger vector moves to new storage)")
    ctx.assumption("a function passed to a walk does not change the queue it walks over; front, back and get are called with an existing element (documented by their assertions)")
