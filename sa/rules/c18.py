"""Abstract interpretation of the packet class in a polyhedral domain with content segments. Starting from every shape
of a packet that satisfies the class invariant (empty, inline or heap memory, with or without content), with symbolic head size, part
sizes, id and source memory, construction, cleaning, building from memory, copying and reading back must keep every access inside its
memory, free heap memory exactly once, re-establish the invariant (memory size = head + big-endian size in the head, memory large enough
for the safety tail, member pointers at their places) and yield exactly the specified bytes. Analysed with assertions on and off."""
import packet
LEVEL = "proof"
BUILD = ("Packet", "clean", "~Packet", "get_packet_size", "get_packet_id", "build_from_memory", "alloc_packet")
def run(ctx, methods=BUILD, floor=100):
    for nd in ((), ("-DNDEBUG",)):
        P = ctx.program("prim", cppflags=nd) if nd else ctx.program("prim")
        tag = "[NDEBUG]" if nd else ""
        def sink(rule, where, detail, trace):
            if any(("Packet::" + m + tag + ":") in detail or detail.startswith("Packet::%s never" % m) for m in methods):
                ctx.bad(rule, where, detail, trace, key="%s|%s" % (rule, detail.replace("[NDEBUG]", "")))
        A = packet.analyse(P, sink, tag)
        n = 0
        for rule, where, ok, method in A.obl:
            if ok and method.split("::")[1].replace("[NDEBUG]", "") in methods: ctx.ok(rule, where, method); n += 1
        for m in methods: ctx.check(m in A.methods, "operation analysed", "source/cyEvent/event/cye_packet.cpp", m, key="analysed " + m)
        for k, v in A.stats.items(): ctx.cover["abstract %s%s" % (k, tag)] = v
    ctx.need(n, floor // 2, "obligations")
    ctx.assumption("no object is larger than 2^47 bytes; a head size is the size of an object and at least 4 (asserted by the code)")
    ctx.assumption("malloc does not fail (the code has no out-of-memory handling); a pipe read returns at most what was asked for; ring buffer operations behave as decided by C02")
