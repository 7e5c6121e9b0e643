"""Typestate of the server over every path through every function of the server
object, the acceptor thread and the worker threads (private helpers inlined;
each message handler analysed once per command id, and what a handler does with
an id decides which command it stands for): a stop from a worker is rejected
before anything changes, one caller wins and sends one shutdown command to the
acceptor, which closes everything, tells every worker exactly once after the
last accepted connection and quits; a worker that was told remembers it, shuts
down every connected connection and quits exactly when its table is empty;
join waits for acceptor and workers before freeing or forgetting anything; no
control command may be dropped."""
import srv
LEVEL = "other"

def run(ctx):
    P, h, n = srv.analyse(ctx, "C27")
    for k in ("master", "work", "stop", "join", "stop_listen"): ctx.need(h.get("kind:" + k, 0), 1, "server function: " + k)
    for r in ("the acceptor quits on shutdown", "a worker without connections quits", "a worker that shuts down shuts down every open connection",
              "stopping sends one shutdown command to the acceptor", "join waits for every thread"):
        ctx.need(n.get(r, 0), 1, r)
