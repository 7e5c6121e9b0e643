# technique and level note per claimed property; reason per not-applicable one
TECH = {
"C42": ("byte-level dataflow over every path of constructors and accessors with system calls given by contract",
  "every outcome of each system call, every argument value; a conversion told the right family and enough room cannot fail"),
"C34": ("dataflow of byte provenance (normal forms over GF(2^8)) through key setup and block functions, table lint against the field definition",
  "every key and block, all 256 entries of every table column that is indexed; encrypt and decrypt, separate and in place"),
"C35": ("dataflow of byte provenance with an inductive invariant of the block loop (linear positions, chaining value)",
  "every number of blocks, separate and in-place buffers, vector given or not; overlap other than exact identity excluded"),
"C36": ("abstract interpretation (polyhedra) with the bytes added since the last reduction as ghost quantities",
  "every length below 2^47, every content and every valid running checksum"),
"C05": ("dataflow over compare-exchange loops with path order relations, lock typestate, abstract interpretation (polyhedra) of the sample window",
  "every instantiation in the library and samples; all interleavings through the per-path obligations; queue modelled by the contract C03 proves"),
"C06": ("path-sensitive lock typestate over LLVM IR with interprocedural lock-acquisition summaries",
        "all control paths of every library and sample function that operates on a lock; abort paths (assert) excluded"),
"C07": ("interprocedural effect analysis (callback/blocking/lock effects) under a path-sensitive lockset, lock-order graph acyclicity",
        "all call sites executed with a lock held, transitive effects over the call graph with virtual calls resolved by class hierarchy"),
"C01": ("abstract interpretation (disjunctive polyhedra) of each RingBuf method against a class invariant; inductive over all call histories",
        "all RingBuf methods for every capacity, index state and argument; memory safety, frees, termination measures, invariant preservation"),
"C02": ("abstract interpretation with stream-content segments of each RingBuf method against its contract",
        "all RingBuf methods for every capacity, index state and argument; contents as positions of a logical byte stream"),
"C03": ("abstract interpretation (disjunctive polyhedra with content segments) of every ring queue method against invariant and contract",
  "all methods of both kinds, every capacity, index state and argument; std::vector modelled at its interface; capacities near SIZE_MAX excluded"),
 "C04": ("path-sensitive typestate of the slot hand-off protocol over the compare-exchanges, with path conditions evaluated for all index residues",
        "every instantiation of push and pop; necessary conditions for the hand-off under any interleaving, not a linearizability proof (see C51)"),
"C08": ("path-sensitive typestate of the signal flag under its mutex plus interval/linear numerics of the deadline computation",
        "all paths of the signal functions and every call site that builds a deadline; every clock value and timeout"),
"C09": ("ownership typestate of thread objects over create, entry, join, detach and exit paths",
        "all paths of the thread functions and their callers in the library"),
"C10": ("slot typestate (free/active/timer) over the looper's slot table plus numeric induction of the table growth loop",
        "all paths of every function that touches a slot; free list and active list links, slot identity, descriptor ownership"),
"C11": ("path-sensitive freshness and copy analysis of every callback invocation in the dispatch loop",
        "every function that invokes an event or timer callback, all paths, every interest mask and callback presence"),
"C12": ("path-sensitive typestate of stop flag, touched flag and wake-up pipe plus memory-order rules",
        "every function that stores the flags or waits; interleavings covered by publication and ordering rules, not enumerated"),
"C14": ("interval/linear arithmetic of the timer specification plus ownership typestate of timer object and descriptor",
        "every 32-bit period; all paths of registration, deletion and dispatch"),
"C16": ("path-sensitive typestate of queue, armed flag and wake-up pipe in senders and worker plus memory-order rules",
        "every function that pushes to or pops from a worker's queue, all paths and outcomes of push, pop and compare-exchange; interleavings covered by the order rules, not enumerated"),
"C17": ("ownership typestate of heap packets across allocation, queue and callback plus abstract interpretation of copy and clean",
        "every library and sample function that allocates, queues, takes or frees packets; every shape and size of a copied or cleaned packet"),
"C18": ("abstract interpretation (disjunctive polyhedra with content segments) of the packet class against its invariant and contract",
        "every head size, part size, id and prior packet state; with assertions on and off"),
"C19": ("abstract interpretation (disjunctive polyhedra with content segments) of packet extraction against its contract",
        "every number of buffered bytes, head size, announced size and short read; with assertions on and off"),
"C20": ("ownership typestate of descriptors (value-based, path-sensitive) with checked ownership transfers into objects and destructors",
        "every library function that opens, receives or closes a descriptor, all paths including failures of later steps; descriptors of the process's own code outside the library excluded"),
"C21": ("path-sensitive typestate of (event id, descriptor) pairs over connections, clients, acceptors and the loop's own pipe",
        "every path that deletes an event, closes a registered descriptor or hands it over"),
"C22": ("path-sensitive typestate of the connection state machine with callback and release events",
        "every function of the connection, all paths and all outcomes of read, write and the state compare-exchanges; other threads' transitions modelled as reloads"),
"C23": ("path-sensitive lockset plus protocol typestate of the send path and the write handler (linear provenance of the unsent remainder)",
        "all paths of the send functions, the write handler and the client's cache; every short write"),
"C24": ("path-sensitive typestate of shutdown, write handler and close over the send buffer's emptiness",
        "all paths of shutdown, the write handler and the close; all orders of send, shutdown and writability through the state they leave"),
"C25": ("path-sensitive classification of socket results (would-block truth table) plus a flag rule on every socket write",
        "every read, write and accept of the library and every path after each outcome; errno values split by the codes the source names"),
"C27": ("command-role inference and path-sensitive typestate of acceptor, workers and server object",
        "every handler once per command id, all paths of stop, join, start and stop_listen; relies on C16 for delivery and on peers or the kernel letting connections drain"),
"C28": ("path-sensitive typestate of table entries, command contents and worker index over every function of server and threads",
        "all handlers, callbacks and senders of the server; every command id, every state of a connection"),
"C29": ("path-sensitive typestate of the client's attempt/retry/connected states with a lockset rule",
        "every function and callback of the client, all paths; concurrent callers modelled by the lockset rule"),
"C31": ("path-sensitive typestate of level gate, text completeness, argument list and log file",
        "all paths of the logging functions, every level and every outcome of the formatting calls; with assertions on and off"),
"C32": ("compiler format checking with format positions found by dataflow over LLVM IR",
        "every formatted output call of library and samples, with assertions on and off"),
"C13": ("path-sensitive typestate of the poll registration against the channel's recorded interest",
        "all paths of the registration functions and the epoll back end"),
"C15": ("dataflow from kernel event bits to the dispatch lists plus numeric induction over the returned-event loop",
        "all paths of the epoll back end, every combination of event bits and every number of returned entries"),
}
NA = {
"C50": "equality of 128-bit modular powers for all operands is an algebraic fact about a data-dependent double-and-add loop; dataflow or interval reasoning does not reach it and handing the paths to a solver is a different family",
"C51": "linearizability quantifies over unbounded concurrent histories and index wrap-around between a load and its compare-exchange; the static protocol rules of C04 are necessary conditions only",
"C52": "wall-clock delays depend on the scheduler and the kernel, nothing in the source bounds them",
}
