"""Typestate of a connection over every path through every function of the
connection class (private helpers inlined, both live start states for the
loop's callbacks, every state for functions other threads may call): stores of
the state only move forward, the loop thread alone performs the close sequence,
and that sequence consists of exactly one deletion of the event, one invocation
of the close callback with the connection kept alive by a strong reference, one
close of the socket and the release of both buffers, in that order; after a
callback the state is unknown again, so every later use must be re-established
by a test."""
import net
LEVEL = "other"

def run(ctx):
    P, h, n = net.analyse(ctx, "C22")
    ctx.need(h.get("cb:m_on_close", 0), 1, "invocations of the close callback")
    ctx.need(h.get("exit", 0), 20, "function exits")
    ctx.need(n.get("the state only moves forward", 0), 2, "stores of the state")
    ctx.need(n.get("the event is deleted once, by the closing thread, after the state says disconnected", 0), 1, "deletions of the event")
