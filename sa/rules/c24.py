"""Typestate of graceful shutdown over every path through every function of the
connection class: a shutdown marks the connection disconnecting under the send
buffer's lock and closes at once only when, after that mark, the buffer was
seen empty or write interest off (so that no concurrent sender's bytes are
lost); with bytes buffered the socket stays open and write interest stays on;
the write handler that drains the last byte of a disconnecting connection
completes the close; sends are refused in every state but connected; buffered
bytes are discarded only by the close sequence."""
import net
LEVEL = "other"

def run(ctx):
    P, h, n = net.analyse(ctx, "C24")
    ctx.need(h.get("shut", 0), 1, "exits of shutdown")
    ctx.need(n.get("the connection leaves the connected state under the send buffer's lock", 0), 2, "state changes")
    ctx.need(n.get("a drained disconnecting connection completes its close", 0), 1, "exits of the write handler")
