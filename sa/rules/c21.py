"""Typestate of event ids together with the descriptors they watch, over every
path through every function of the connection, the client and the server: an
id comes from a registration of the object's own open descriptor, is deleted
exactly once, by the loop that issued it, before the descriptor is closed or
handed to a new owner, and the stored id is invalidated after the deletion; for
the listening sockets every element of the table is walked with its two fields
tracked."""
import net, cli, srv
LEVEL = "other"

def run(ctx):
    P, h, n = net.analyse(ctx, "C21")
    ctx.need(n.get("the event is deleted and its id invalidated before the socket is closed", 0), 1, "closes of a connection's socket")
    P, h, n = cli.analyse(ctx, "C21")
    ctx.need(n.get("the event is deleted before the socket is closed", 0), 1, "closes of a client's socket")
    ctx.need(n.get("the client's event is deleted before the socket is handed to a connection", 0), 1, "hand-over of a client's socket")
    P, h, n = srv.analyse(ctx, "C21")
    ctx.need(n.get("the event is deleted before the socket is closed", 0), 1, "closes of listening sockets")
    ctx.need(n.get("every listening socket's event is registered and remembered", 0), 1, "registrations of listening sockets")
