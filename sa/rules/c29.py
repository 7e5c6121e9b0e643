"""Typestate of a client over every path through every function of the client
class (private helpers inlined; user callbacks may connect, disconnect or
release the client): socket, event, retry timer and connection always form one
of the four modes idle, retry, connecting, connected at every return and
whenever user code is called; each attempt has one outcome, a failure is
reported once and leaves the idle mode, a retry timer is set exactly when the
callback asked for one, ids come from the client's own registrations and are
deleted before they are forgotten, what other threads read changes under the
lock, and nothing of the client is used after a callback unless a strong
reference keeps it alive."""
import cli
LEVEL = "other"

def run(ctx):
    P, h, n = cli.analyse(ctx, "C29")
    for k in ("ctor", "dtor", "connect", "disconnect", "event", "retry", "state", "send"):
        ctx.need(h.get("kind:" + k, 0), 1, "client function: " + k)
    ctx.need(h.get("cb:on_connected", 0), 1, "invocations of the connected callback")
    ctx.need(n.get("each attempt is reported once", 0), 3, "outcomes of attempts")
    for k in ("report:on_message", "report:on_close"): ctx.need(h.get(k, 0), 1, "functions that report to the user: " + k)
