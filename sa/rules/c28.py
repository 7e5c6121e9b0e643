"""Typestate of the server's connection table over every path through every
function of the server object and its threads (each message handler analysed
once per command id): iterators into the table are used only after they were
compared with its end and containers are not changed while walked; a new
connection gets a fresh id, the socket that came with the command and its own
worker as owner, is wired up before the user sees it and recorded under its own
id on every path; it is removed only when it is disconnected; the function
stored as close callback reports once to the user and always sends the close
command for this connection to the worker that owns it."""
import srv
LEVEL = "other"

def run(ctx):
    P, h, n = srv.analyse(ctx, "C28")
    for k in ("master", "work", "accept", "start", "shutconn", "onclose", "onmsg", "table"): ctx.need(h.get("kind:" + k, 0), 1, "server function: " + k)
    for r in ("every accepted connection is recorded in its worker's table", "an entry is only used after it was found", "a disconnected connection leaves the table",
              "a closed connection is always scheduled for removal", "an accepted socket is given to a worker of the pool"):
        ctx.need(n.get(r, 0), 1, r)
