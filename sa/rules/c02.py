"""Abstract interpretation of every RingBuf operation with content tracking: each block carries which positions of which
logical byte stream it currently holds (segments with symbolic bounds); on return the stream stored in the ring must equal the
contract (append / consume / keep), the bytes handed out or offered to the kernel must be the oldest in order, and the returned counts
must equal the contract, for every capacity, fill level, wrap position and argument."""
from ring import analyse, MEMRULES
LEVEL = "proof"

def run(ctx):
    P = ctx.program("core")
    seen = set()
    def sink(rule, where, detail, trace):
        if (rule in MEMRULES) != False: return
        ctx.bad(rule, where, detail, trace, key="%s|%s" % (rule, detail.split(":")[0]))
    rb = analyse(P, sink)
    n = 0
    for rule, where, ok, method in rb.obl:
        if (rule in MEMRULES) != False or not ok: continue
        n += 1
        ctx.ok(rule, where, method)
    ctx.need(len(rb.methods), 15, "ring buffer operations analysed")
    ctx.need(n, 30, "obligations")
    for k, v in rb.stats.items(): ctx.cover["abstract " + k] = v
    ctx.assumption("no single object is larger than 2^47 bytes (user address space)")
    ctx.assumption("readv/writev/sendmsg/memcpy/memchr/malloc behave as specified by POSIX/C; malloc does not fail (the code has no out-of-memory handling)")
    ctx.assumption("a caller that passes a count passes memory of that many bytes; a count larger than what is buffered needs only as much memory as is returned")
