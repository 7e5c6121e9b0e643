"""Typestate of the send path over every path through every function of the
connection class: the lock of the send buffer is tracked with the buffer's
emptiness and the write interest as known on that path; a direct write to the
socket needs an empty buffer tested under the lock, the bytes the kernel did
not take are compared as linear expressions with the arguments of the append
(start = first byte not taken, length = bytes not taken, exactly once, before
the lock is released), and write interest is switched off only under the lock
with the buffer known to be empty and switched on whenever bytes stay. The
client's functions are followed likewise: bytes given while it connects are kept
with exactly the given range, sent once as a whole before the success is
reported, removed only then, and dropped only by disconnecting."""
import net, cli
LEVEL = "other"

def run(ctx):
    P, h, n = net.analyse(ctx, "C23")
    ctx.need(n.get("the send buffer is only touched while its lock is held", 0), 10, "uses of the send buffer")
    ctx.need(n.get("the socket is only written by the loop thread while open", 0), 1, "direct writes to the socket")
    ctx.need(len(n), 6, "rules of the send path that found something to decide")
    P, h, n = cli.analyse(ctx, "C23")
    for r in ("a connecting client keeps exactly the bytes it was given", "kept bytes are sent once, all of them, when the client is connected",
              "a connected client sends exactly the bytes it was given"): ctx.need(n.get(r, 0), 1, r)
