"""Abstract interpretation of every RingBuf operation in a disjunctive polyhedral
domain (linear integer constraints, exact machine wrap-around): starting from the class invariant with symbolic capacity,
indices and arguments over the full 64-bit range, every byte access must be inside its block, blocks are freed exactly once and never
used afterwards, scratch memory is freed, loops have a decreasing measure, and the class invariant is re-established on return -
by induction over calls this covers every history."""
from ring import analyse, MEMRULES
LEVEL = "proof"

def run(ctx):
    P = ctx.program("core")
    seen = set()
    def sink(rule, where, detail, trace):
        if (rule in MEMRULES) != True: return
        ctx.bad(rule, where, detail, trace, key="%s|%s" % (rule, detail.split(":")[0]))
    rb = analyse(P, sink)
    n = 0
    for rule, where, ok, method in rb.obl:
        if (rule in MEMRULES) != True or not ok: continue
        n += 1
        ctx.ok(rule, where, method)
    ctx.need(len(rb.methods), 15, "ring buffer operations analysed")
    ctx.need(n, 150, "obligations")
    for k, v in rb.stats.items(): ctx.cover["abstract " + k] = v
    ctx.assumption("no single object is larger than 2^47 bytes (user address space)")
    ctx.assumption("readv/writev/sendmsg/memcpy/memchr/malloc behave as specified by POSIX/C; malloc does not fail (the code has no out-of-memory handling)")
    ctx.assumption("a caller that passes a count passes memory of that many bytes; a count larger than what is buffered needs only as much memory as is returned")
