"""Ownership of descriptors as typestate over every path through every library
function that opens one (sources and closers found by a fixpoint over the call
graph): an opened descriptor is known invalid, closed once, returned or handed
to an owner at every exit, is never used before it was looked at nor after it
was closed; the members that receive descriptors are derived, and the owning
class's destructor closes each exactly once unless it is invalid; a timer's
descriptor is closed when its event is deleted. Client, acceptor and server are
followed with their own state machines (sockets kept across calls, elements of
the table of listening sockets, sockets sent to workers)."""
import cli, srv, fd
LEVEL = "other"

def run(ctx):
    P, h, n = cli.analyse(ctx, "C20")
    for k in ("ctor", "dtor", "connect", "disconnect", "event", "retry"): ctx.need(h.get("kind:" + k, 0), 1, "client function: " + k)
    P, h, n = srv.analyse(ctx, "C20")
    for r in ("every listening socket is closed", "a closed listening socket is forgotten", "an accepted socket is handed over or closed, once"): ctx.need(n.get(r, 0), 1, r)
    fd.run(ctx, skip=("cyclone::TcpClient::", "cyclone::TcpServerMasterThread::_on_accept"))
