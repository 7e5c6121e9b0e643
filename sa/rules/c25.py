"""Typestate of reading, writing and accepting over every path through every
function of the connection class and the acceptor (a would-block result leaves
the connection open, its events registered and the statistics unchanged; the
error code is examined before another call can replace it; a failed accept
changes nothing), the truth table of the would-block test over every errno
value, and a path rule over every function that writes to a descriptor: a send
carries MSG_NOSIGNAL, and a plain write is reached only after such a send of
the same descriptor failed because it is not a socket."""
import net, srv, sigpipe
LEVEL = "other"

def run(ctx):
    P, h, n = net.analyse(ctx, "C25")
    for r in ("a would-block error never closes a connection", "the error is examined before anything else can replace it", "statistics count exactly the bytes that were transferred"):
        ctx.need(n.get(r, 0), 1, r)
    P, h, n = srv.analyse(ctx, "C25")
    ctx.need(h.get("kind:accept", 0), 1, "accept handlers")
    ctx.need(n.get("a failed accept changes nothing", 0), 1, "failed accepts")
    sigpipe.run(ctx)
