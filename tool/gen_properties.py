#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles, statements, anchors)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

CORE = "source/cyCore/core/"; EV = "source/cyEvent/event/"; NET = "source/cyNetwork/network/"; UT = "source/cyUtility/utility/"; CR = "source/cyCrypt/crypt/"

p("C01", "The byte ring buffer never touches memory outside its storage",
  "For every history of ring buffer calls (growth, wrap-around, short socket transfers, moving bytes to another ring buffer, offsets and counts up to the largest representable size) every byte read or written lies inside the buffer's current storage or inside the extent the caller declared. The storage is freed exactly once, is never used after being freed, and every scratch block that is allocated is freed. No call can loop forever.",
  ["inputs", "histories"], "all ring states reachable from construction, all arguments, all results of readv/writev",
  "unit tests drive a few sizes and offsets; an out-of-range access needs a particular read/write position, capacity and count combination, or a count near SIZE_MAX",
  [CORE + "cyc_ring_buf.cpp", CORE + "cyc_ring_buf.h"],
  [("index wrap and bounded copies", CORE + "cyc_ring_buf.cpp"), ("growth", "RingBuf::resize")],
  [("m_read/m_write/m_end", "read index, write index, storage size; 0<=read,write<end", CORE + "cyc_ring_buf.h")])
p("C02", "The byte ring buffer is an exact FIFO with exact byte accounting",
  "For every history, bytes leave a ring buffer in the order they entered with none lost, duplicated or overwritten, each call reports exactly the number of bytes it moved, and a socket read or write advances the buffer by exactly what the kernel reported. Peeking, checksumming and searching leave the contents alone and refer to positions counted from the oldest unread byte; making the content contiguous or growing keeps it. Size, free size and capacity always agree, and asking for room for n bytes leaves a capacity of at least n.",
  ["inputs", "histories"], "all reachable ring states, all arguments, all short counts of readv/writev",
  "order and accounting depend on where the read and write positions sit relative to the wrap point and on short counts; tests sample a few",
  [CORE + "cyc_ring_buf.cpp", CORE + "cyc_ring_buf.h"],
  [("segment loops", CORE + "cyc_ring_buf.cpp"), ("size/free size/capacity", CORE + "cyc_ring_buf.h")],
  [("m_read/m_write/m_end", "logical position i is storage cell (read+i) mod end", CORE + "cyc_ring_buf.h")])
p("C03", "The element ring queue keeps its elements in order and in range",
  "For every history of a ring queue (fixed or growing), every element access is inside its storage, elements are seen front to back in insertion order by indexing, walking and reverse walking, and popping n removes exactly the n oldest (all when n exceeds the size). A growing queue never loses an element when it grows; a fixed queue drops exactly the oldest element when full and never exceeds the requested capacity.",
  ["inputs", "histories"], "all reachable queue states, all capacities, all pop counts and indices below the size",
  "needs particular wrap positions at the moment of growth or of a multi-pop; tests use a handful of lengths",
  [UT + "cyu_ring_queue.h"], [("growth and index arithmetic", UT + "cyu_ring_queue.h")],
  [("m_read/m_write/m_end/m_fixed", "queue window", UT + "cyu_ring_queue.h")])
p("C04", "The lock-free queue's slot hand-off protocol holds under every interleaving",
  "A producer reserves a slot only by an atomic claim made after observing that the queue is not full, stores the element before making it visible, and makes slots visible in reservation order; a consumer copies an element only from a visible slot and hands it out only after atomically claiming that same slot. A push that returns false has changed nothing, a push that returns true has published exactly one element, and a pop that returns true has consumed exactly one.",
  ["schedules"], "all interleavings of any number of producers and consumers, spurious compare-exchange failures included",
  "the stress tests see the interleavings the scheduler happens to produce; a wrong order or a claim without a check shows up only in rare windows",
  [CORE + "cyc_lf_queue.h", CORE + "cyc_atomic.h"], [("push/pop compare-exchange protocol", CORE + "cyc_lf_queue.h"), ("atomic_compare_exchange", CORE + "cyc_atomic.h")],
  [("write/read/maximum-read index, count", "slot life cycle", CORE + "cyc_lf_queue.h")])
p("C05", "Concurrent min/max and period statistics never lose or corrupt a sample",
  "After any concurrent updates the recorded maximum (minimum) is at least (at most) every updated value and is one of the updated or initial values. When a period value is built with locking, every access to its samples by push and by the queries happens while holding its lock, and the lock is released on return; the sum and the count returned together are computed from one consistent set of samples, those not older than the period.",
  ["schedules", "inputs"], "all interleavings of updates and queries",
  "lost updates need a second thread to win a compare-exchange at one instruction",
  [UT + "cyu_statistics.h", CORE + "cyc_atomic.h"], [("compare-exchange loops", CORE + "cyc_atomic.h"), ("AutoLock", UT + "cyu_statistics.h")])
p("C06", "Every lock the library takes is released exactly once on every path",
  "In every library and sample function, on every path including early returns and error paths, a mutex that is acquired is released exactly once before the function returns, is never acquired again by the same thread while it is held, is never released when not held, and is not destroyed while held.",
  ["inputs", "schedules", "fault_sequences"], "all control paths of all functions, calls into other library functions included",
  "a leaked or doubly taken mutex sits on a rarely taken path (failed syscall, early return); tests take few of them",
  [CORE + "cyc_system_api.h", CORE + "cyc_system_api.cpp", EV + "cye_looper.cpp", NET + "cyn_tcp_connection.cpp", NET + "cyn_tcp_client.cpp", CORE + "cyc_logger.cpp", UT + "cyu_statistics.h"],
  [("auto_mutex and mutex_lock/mutex_unlock", CORE + "cyc_system_api.h")])
p("C07", "User callbacks run without library locks and locks are ordered",
  "No user-supplied callback (event, timer, message, connection, listener, command or thread start callback) is ever invoked while the library holds one of its locks. The order in which library locks nest has no cycle, and no library lock is held across an operation that waits without bound (joining a thread, waiting for a signal, polling for events, sleeping).",
  ["schedules", "programs"], "all call paths of the library, all programs using callbacks",
  "the deadlock needs a callback that re-enters the library or a second thread at the wrong moment",
  [EV + "cye_looper.cpp", NET + "cyn_tcp_connection.cpp", NET + "cyn_tcp_client.cpp", NET + "cyn_tcp_server.cpp", CORE + "cyc_logger.cpp"],
  [("lock scopes", EV + "cye_looper.cpp"), ("lock scopes", NET + "cyn_tcp_connection.cpp")])
p("C08", "The signal primitive never loses or invents a notification",
  "A notification sent at any time, before or during a wait, makes exactly one wait (plain or timed) succeed: the flag is set and tested only under the signal's own mutex, a wait returns success only after seeing the flag set and clears it before returning, and a waiter blocks only in a loop that re-tests the flag. A timed wait returns failure only when the time is over or, for a zero timeout, the flag is not available.",
  ["schedules"], "all interleavings of waiters and notifiers, spurious wake-ups",
  "lost wake-ups need the notifier to run between the test and the block",
  [CORE + "cyc_system_api.cpp"], [("signal_wait/signal_timewait/signal_notify", CORE + "cyc_system_api.cpp")],
  [("predicate", "1 when a notification is pending", CORE + "cyc_system_api.cpp")])
p("C09", "Thread objects are freed exactly once, after their thread is done with them",
  "The entry function of a created thread runs only after its thread object is completely set up. A joinable thread's bookkeeping is released exactly once, by the join that observed its end; a detached thread's bookkeeping is released exactly once, by the thread itself after its entry function returned; a timed join that fails releases nothing, and nothing touches the bookkeeping after its release.",
  ["schedules"], "all interleavings of creator, thread and joiner",
  "use-after-free windows between creator and thread are a few instructions wide",
  [CORE + "cyc_system_api.cpp"], [("thread entry, create, join", CORE + "cyc_system_api.cpp")])
p("C10", "Event slots are never leaked, double-freed or handed out twice",
  "Registering an event or timer takes exactly one free slot, fully initialises every attribute used by dispatch and returns its id; every path that does not return the id gives the slot back. Deleting an event first switches off every interest, releases a timer's resources exactly once, and returns exactly that slot to the free list once; invalid ids are ignored, and growing the slot table keeps all existing slots.",
  ["histories", "fault_sequences"], "all register/delete histories, timer creation failures",
  "slot leaks and stale attributes show only after reuse following a failure",
  [EV + "cye_looper.cpp", EV + "cye_looper.h"], [("register_event/register_timer_event/delete_event/free list", EV + "cye_looper.cpp")],
  [("free list", "chain of unused slots", EV + "cye_looper.h")])
p("C11", "Dispatch only runs callbacks that are still registered and survive being deleted",
  "When a batch of ready events is dispatched, each callback is run only if its slot still has that interest switched on at that moment, even if an earlier callback of the same batch deleted, disabled or re-registered events. A callback may delete its own event, or register so many events that the slot table grows, without the callback object being destroyed or moved while it runs; the same holds for timer callbacks.",
  ["histories", "programs"], "all programs whose callbacks register, disable or delete events",
  "needs a callback that deletes or registers events in the same batch; the memory error is silent without a sanitizer",
  [EV + "cye_looper.cpp"], [("loop/step dispatch", EV + "cye_looper.cpp"), ("timer dispatch", EV + "cye_looper.cpp")])
p("C12", "A stop request always ends the loop",
  "A stop request pushed from any thread, at any time before or during the loop, is recorded before the loop is woken, and is never erased. After every wait and after every callback the loop checks for it and returns without running another callback; a loop entered after a stop request returns at once, and a wake-up is never suppressed unless one is already pending.",
  ["schedules"], "all interleavings of the requester and the loop thread",
  "the hang needs the request to land between the check and the wait",
  [EV + "cye_looper.cpp"], [("push_stop_request/inner pipe/quit checks", EV + "cye_looper.cpp")],
  [("quit flag, wake-up flag", "stop requested; a wake-up byte is in flight", EV + "cye_looper.h")])
p("C13", "The kernel's interest set always matches the event's recorded interest",
  "After every enable, disable, registration or deletion, the set of conditions the kernel watches for a descriptor equals the interests recorded for that event that have a callback, and a descriptor with no interest is not watched. When the kernel refuses a change, the recorded interest, the active mark and the active count stay as they were; the active count always equals the number of watched events.",
  ["histories", "fault_sequences"], "all interest histories, refused epoll_ctl calls",
  "a mask mismatch shows as a missing or spinning event only after a particular enable/disable history or a kernel failure",
  [EV + "internal/cye_looper_epoll.cpp"], [("add/remove event mask computation", EV + "internal/cye_looper_epoll.cpp")],
  [("event/active/active count", "recorded interest", EV + "cye_looper.h")])
p("C14", "Periodic timers fire repeatedly and release their resources",
  "A registered timer's first expiry and repeat interval both equal the requested milliseconds, split exactly into seconds and nanoseconds; its descriptor is non-blocking and close-on-exec; each dispatch consumes the pending expiry before the user callback runs and passes the timer's own id and parameter. Deleting a timer or failing to create one releases its descriptor and callback object exactly once.",
  ["inputs", "fault_sequences", "histories"], "all periods, creation failures, deletion from inside the callback",
  "a lost interval or an unread expiry needs unusual periods or timing",
  [EV + "cye_looper.cpp"], [("register_timer_event, timer dispatch, delete_event", EV + "cye_looper.cpp")])
p("C15", "Waiting for events survives interruptions and reports every ready event once",
  "An interrupted wait is retried and any other wait failure leaves the ready lists empty; the kernel is never told of more room than the result array has. Each returned descriptor is reported as readable (writable) at most once per wait and only if it is watched and has such a callback; error and hang-up conditions reach a handler even when neither readability nor writability is flagged.",
  ["fault_sequences", "inputs"], "all epoll_wait outcomes and event masks",
  "EINTR, EPOLLERR-only and full result arrays hardly occur in tests",
  [EV + "internal/cye_looper_epoll.cpp"], [("_poll", EV + "internal/cye_looper_epoll.cpp")])
p("C16", "A message sent to a worker thread is never stranded",
  "A sender enqueues its message before it tries to wake the worker, and a sender that finds the worker already woken may rely on the worker looking at the queue again: after the worker re-arms its wake-up it always drains the queue once more before it goes back to waiting. A sender that wins the wake-up always writes a wake-up byte, and winning is never lost to a spurious atomic failure.",
  ["schedules"], "all interleavings of senders and the worker",
  "the stranded message needs a send between the worker's last look and its re-arming",
  [EV + "cye_work_thread.cpp", CORE + "cyc_atomic.h"], [("_wakeup/_on_message", EV + "cye_work_thread.cpp")],
  [("queue-empty flag", "true when the next sender must wake the worker", EV + "cye_work_thread.h")])
p("C17", "Every message packet has exactly one owner until it is freed",
  "Each packet allocated for a thread message is either handed to the worker's queue or freed, on every path including a full queue; each packet taken from the queue is delivered to the message callback at most once and then freed exactly once, never before the callback returns. Copying a packet copies its full content into memory of its own, and cleaning a packet frees its heap memory exactly once.",
  ["histories", "schedules", "fault_sequences"], "all send paths, full queue included",
  "leaks and double frees of packets happen on paths (full queue, missing callback) the tests do not take",
  [EV + "cye_work_thread.cpp", EV + "cye_packet.cpp"], [("send_message/_on_message", EV + "cye_work_thread.cpp"), ("alloc/clean", EV + "cye_packet.cpp")])
p("C18", "Packets are framed exactly and never overrun their memory",
  "For every head size of at least four bytes and every part size, building or copying a packet writes only inside memory that is large enough for head, content and the safety tail; size and id are stored big-endian in the first four bytes and read back the same; content parts are stored one after the other right behind the head. A content longer than 65535 bytes is refused and leaves the packet empty, and an empty packet reports size and id zero.",
  ["inputs"], "all head sizes, part sizes and contents",
  "boundary sizes around the static buffer and 64 KiB are not all sampled",
  [EV + "cye_packet.cpp", EV + "cye_packet.h"], [("_resize/build_from_memory/alloc_packet", EV + "cye_packet.cpp")])
p("C19", "Extracting a packet from a stream is all-or-nothing",
  "Extracting a packet from a ring buffer either fails without consuming a single byte, whenever the buffered bytes are fewer than the head plus the announced content, or consumes exactly head plus content and yields exactly those bytes. Building from a pipe reports success only if exactly the announced number of bytes was read, and a failed build leaves an empty packet.",
  ["inputs", "histories"], "all partial deliveries, all announced sizes",
  "needs short deliveries at each boundary",
  [EV + "cye_packet.cpp"], [("build_from_ringbuf/build_from_pipe", EV + "cye_packet.cpp")])
p("C20", "Every descriptor the library opens is closed exactly once or handed over",
  "Every socket, pipe, poll, timer or file descriptor the library opens (accepted sockets included) is, on every path including failures of later steps, either closed exactly once or stored in or handed to the object that closes it exactly once at the end of its life. No descriptor is used or closed again after having been closed, and a failed open is never used as a descriptor.",
  ["fault_sequences", "histories"], "all failure points of the setup sequences",
  "descriptor leaks and double closes sit on failure paths (refused connect, failed bind, failed fcntl)",
  [CORE + "cyc_socket_api.cpp", EV + "cye_pipe.cpp", EV + "cye_looper.cpp", EV + "internal/cye_looper_epoll.cpp", NET + "cyn_tcp_client.cpp", NET + "cyn_tcp_connection.cpp", NET + "internal/cyn_tcp_server_master_thread.cpp", NET + "cyn_tcp_server.cpp"],
  [("check_connect, bind_socket, connect, accept, pipe, close", CORE + "cyc_socket_api.cpp")])
p("C21", "A descriptor is deregistered from its event loop before it is closed",
  "On every path, a descriptor that was registered with an event loop has its event deleted before the descriptor is closed or passed to a new owner, the stored event id is invalidated when its event is deleted, and an event id is deleted at most once.",
  ["histories", "schedules"], "all close paths of connections, clients, acceptors and the loop's own pipe",
  "closing first lets another thread reuse the descriptor number; the stale event then hits an unrelated connection",
  [NET + "cyn_tcp_connection.cpp", NET + "cyn_tcp_client.cpp", NET + "internal/cyn_tcp_server_master_thread.cpp", EV + "cye_looper.cpp"],
  [("delete_event / close_socket pairs", NET + "cyn_tcp_connection.cpp")])
p("C22", "A connection closes once and its close callback runs exactly once",
  "A connection only moves forward from connected to disconnecting to disconnected. Whatever closes it (peer close, read error, fatal write error, local shutdown), exactly one close sequence runs: state set to disconnected, event deleted, close callback invoked once with the connection kept alive, then socket closed once and buffers released; no callback of that connection runs afterwards.",
  ["histories", "fault_sequences"], "all event orders, all read/write results",
  "double closes and missed close callbacks need particular orders of error and shutdown",
  [NET + "cyn_tcp_connection.cpp"], [("state machine, _on_socket_close", NET + "cyn_tcp_connection.cpp")],
  [("connection state", "connected/disconnecting/disconnected", NET + "cyn_tcp_connection.h")])
p("C23", "Outgoing bytes are sent once, in order, and the send buffer is locked",
  "A direct write to the socket happens only when nothing is buffered, and the send buffer's lock is held continuously from that test until the bytes the kernel did not take have been appended, exactly once, starting right after the last byte taken; write interest is then on. The send buffer is only touched by senders and the write handler while its lock is held, and write interest is switched off only under that lock when the buffer was seen empty. Bytes given to a client while it is still connecting are kept and sent once when it is connected.",
  ["schedules", "inputs"], "all short writes, all interleavings of senders with the write handler",
  "reordering or loss needs a short write followed by another send, or a concurrent sender",
  [NET + "cyn_tcp_connection.cpp"], [("send/_send/_on_socket_write", NET + "cyn_tcp_connection.cpp")],
  [("send buffer", "bytes accepted but not yet written", NET + "cyn_tcp_connection.h")])
p("C24", "Graceful shutdown flushes what was accepted and then closes",
  "A shutdown requested while bytes are still buffered does not close the socket: it marks the connection as disconnecting, new sends are refused, the write handler keeps writing, and once the buffer is empty it completes the close. With nothing buffered the shutdown completes at once; only a fatal socket error may discard buffered bytes.",
  ["histories"], "all interleavings of send, shutdown and writability",
  "needs a shutdown while the kernel buffer is full",
  [NET + "cyn_tcp_connection.cpp"], [("shutdown/_on_socket_write", NET + "cyn_tcp_connection.cpp")])
p("C25", "A busy or broken peer never kills a healthy connection or the process",
  "A read, write or accept that reports would-block is never treated as an error: the connection stays open and is served again. A peer that resets or closes its end makes writes fail with an error code that only affects that connection; it can never raise a signal that terminates the process, and a failed write never changes the byte statistics.",
  ["fault_sequences", "schedules"], "all errno values of socket calls, all stale readiness reports",
  "would-block on a reported descriptor and a broken pipe need timing",
  [NET + "cyn_tcp_connection.cpp", CORE + "cyc_socket_api.cpp", CORE + "cyc_ring_buf.cpp"], [("error classification", NET + "cyn_tcp_connection.cpp"), ("socket write", CORE + "cyc_socket_api.cpp")])
p("C27", "Stopping the server always ends every thread",
  "Stop is rejected for callers on worker threads without changing any state; otherwise one caller wins, and the acceptor and then every worker receive exactly one shutdown command, the workers after the last accepted connection. The acceptor closes every listening socket and quits; each worker shuts down all of its connections and quits as soon as it has none left after shutdown has begun, whatever the order of close, new-connection and shutdown commands; join waits for every thread before freeing anything. A server started again after join can be stopped again. Stopping to listen closes exactly the listening socket that was named.",
  ["schedules", "histories"], "all orders of commands at each thread",
  "the hang needs a particular order of a close or accept against the shutdown command",
  [NET + "cyn_tcp_server.cpp", NET + "internal/cyn_tcp_server_work_thread.cpp", NET + "internal/cyn_tcp_server_master_thread.cpp"],
  [("stop/join and command handling", NET + "cyn_tcp_server.cpp")])
p("C28", "The server's connection table owns every connection until it is closed",
  "Every accepted socket is given to exactly one worker whose index is always inside the pool; the worker records the connection under its own id before any command can look it up, removes it only once it is disconnected, and never uses an entry it did not find. A closed connection is always scheduled for removal after its close callback, and an unknown id is ignored. Callbacks are given the connection concerned and the index of its worker, and a message a user sends to a worker or to the acceptor is put, unchanged, into the queue of exactly the thread that was named.",
  ["histories", "schedules"], "all accept/close/command orders, index wrap-around",
  "index overflow needs two billion accepts; dangling entries need particular command orders",
  [NET + "cyn_tcp_server.cpp", NET + "internal/cyn_tcp_server_work_thread.cpp"], [("round-robin index, connection map", NET + "cyn_tcp_server.cpp")])
p("C29", "A failed client connect is reported and leaves nothing behind",
  "A connect attempt ends in exactly one outcome: a connection that takes over the socket, or a failure after which the socket is closed, its event deleted and the client is disconnected again. A retry is scheduled exactly when the failure callback asks for one, at most one retry timer exists at a time, its event is deleted before a new attempt, and disconnecting cancels a pending attempt or retry and shuts an established connection down. Each attempt is reported once, the client is kept alive while its callbacks run, the messages and the close of its connection reach its user, and the state other threads may query is only touched under the client's lock.",
  ["fault_sequences", "histories"], "all connect outcomes, immediate failures, retries and disconnects",
  "synchronous connect failures and disconnects during retry are not tested",
  [NET + "cyn_tcp_client.cpp"], [("connect/abort/retry/disconnect", NET + "cyn_tcp_client.cpp")])
p("C31", "Logging is bounded, filtered and leaks nothing",
  "For every level, format and argument length a log call either writes one complete line or nothing: messages below the threshold or with an invalid level produce no output, over-long messages are formatted into memory of exactly sufficient size that is freed, and the log file is closed on every path. Each consumption of the variable arguments is preceded by a fresh start and the list is ended once.",
  ["inputs", "fault_sequences"], "all levels, all message lengths, file system failures",
  "needs messages around the internal buffer size and failing file operations",
  [CORE + "cyc_logger.cpp"], [("disk_log", CORE + "cyc_logger.cpp")])
p("C32", "Every formatted output matches its arguments",
  "At every formatted output call of the library and the samples (log, printf family) the format is a constant whose conversions agree in number and type with the arguments passed.",
  ["inputs", "fault_sequences"], "all call sites, including those on error paths",
  "most log calls are on error paths no test takes; a mismatch reads garbage or crashes only there",
  [CORE + "cyc_logger.h", CORE + "cyc_socket_api.cpp", "samples"], [("CY_LOG/disk_log/printf call sites", CORE + "cyc_logger.h")])
p("C33", "Fixed-size text buffers are never overrun and always terminated",
  "Every operation that fills a fixed-size character array is limited to that array's size, and the array is terminated before it is used as a string, for every host name, process path, address, file name or option text.",
  ["inputs"], "all lengths of external strings",
  "the unterminated case needs a name of exactly the buffer's length",
  [CORE + "cyc_system_api.cpp", CORE + "cyc_logger.cpp", NET + "cyn_tcp_connection.cpp", NET + "cyn_address.cpp", UT + "cyu_string_util.cpp", "samples"],
  [("snprintf/strncpy/readlink/gethostname uses", CORE + "cyc_system_api.cpp")])
p("C34", "AES-128 uses the standard tables and round structure for every key and block",
  "For every key and block, encryption equals the AES-128 standard and decryption is its exact inverse: all lookup tables equal their definition over GF(2^8), each round applies the right table, byte position and round key word, and the key schedules are those of the standard.",
  ["inputs"], "all 2^128 keys and blocks",
  "one wrong table entry affects about 5% of blocks in one byte position and test vectors can miss it",
  [CR + "cyr_rijndael.cpp"], [("tables, key expansion, rounds", CR + "cyr_rijndael.cpp")])
p("C35", "CBC encryption and decryption chain correctly, also in place and across calls",
  "For every number of blocks, with distinct or identical input and output, each block is chained with the previous ciphertext block (the initial vector for the first), the caller's initial vector is updated to the last ciphertext block when one is supplied and otherwise a default one is used and left unchanged, and exactly the given whole blocks are read and written.",
  ["inputs"], "all lengths that are multiples of the block size, in-place use",
  "in-place decryption and continued vectors are sampled at few lengths",
  [CR + "cyr_rijndael.cpp"], [("encrypt/decrypt block loops", CR + "cyr_rijndael.cpp")])
p("C36", "Adler-32 sums every byte once and never overflows",
  "For every length, both checksum halves consume every byte exactly once in order, no intermediate sum can exceed 32 bits before it is reduced, both halves of the result are below 65521, and no byte outside the given range is read.",
  ["inputs"], "all lengths and contents",
  "an overflow needs thousands of large bytes between reductions",
  [CR + "cyr_adler32.cpp"], [("block loops and reductions", CR + "cyr_adler32.cpp")])
p("C38", "Command line parsing stays inside its arrays",
  "For every argument vector, parsing reads only existing arguments and the characters of terminated strings, writes only inside its own scratch arrays, keeps every argument exactly once when it reorders them, releases its scratch memory exactly once even when initialised twice, and compares option names position by position.",
  ["inputs"], "all argument vectors",
  "needs unusual argument shapes (lone dashes, missing values, many files)",
  [UT + "cyu_simple_opt.h"], [("argument shuffling and matching", UT + "cyu_simple_opt.h")])
p("C39", "The sample servers survive every byte stream a peer can send",
  "For every byte stream and every way it is cut into deliveries, the sample servers' parsers copy and read only inside their buffers, treat an incomplete message as a reason to wait and not as an error, always make progress or return, never divide by a size the peer controls without checking it, and never use a connection or session they did not find.",
  ["inputs", "histories"], "all byte streams and segmentations",
  "the samples have no tests; hostile sizes and fragmentation need crafted peers",
  ["samples/relay/relay_server.cpp", "samples/relay/relay_local.cpp", "samples/relay/relay_pipe.cpp", "samples/socks5/s5_main.cpp", "samples/socks5/s5_protocol.cpp", "samples/filetransfer/ft_server.cpp", "samples/filetransfer/ft_client.cpp", "samples/chat/chat_server.cpp", "samples/chat/chat_client.cpp", "samples/echo/echo_server.cpp"],
  [("message callbacks", "samples")])
p("C42", "Addresses are fully initialised whatever the system calls return",
  "Every address object is fully initialised and its text form terminated on every path, including when the socket name, peer name or text conversion fails; byte order conversions are applied exactly once between host ports and network ports, and copying copies both the binary and the text form.",
  ["fault_sequences", "inputs"], "all outcomes of getsockname, getpeername, inet_pton",
  "the failing calls need a peer that vanished at the right time",
  [NET + "cyn_address.cpp", CORE + "cyc_socket_api.cpp", NET + "internal/cyn_tcp_server_master_thread.cpp"], [("constructors", NET + "cyn_address.cpp")])
# ---- outside the reach of static analysis (not_applicable)
p("C50", "Both sides of a key exchange derive the same secret",
  "For all private keys of two parties, the secret each derives from its own private key and the other's public key is the same, and equals the generator raised to the product of the private keys modulo the 128-bit prime.",
  ["inputs"], "all pairs of 128-bit private keys",
  "tests sample some keys; carries at the limb boundary need particular operands",
  [CR + "cyr_dhexchange.cpp"], [("mulmodp/powmodp", CR + "cyr_dhexchange.cpp")])
p("C51", "The lock-free queue is linearizable",
  "Every concurrent history of pushes and pops is equivalent to some sequential FIFO history consistent with real-time order, for every number of threads and any number of operations.",
  ["schedules"], "all concurrent histories, index wrap-around included",
  "the stress tests sample schedules; an index that wraps between a load and its compare-exchange needs 2^32 operations in that window",
  [CORE + "cyc_lf_queue.h"], [("push/pop", CORE + "cyc_lf_queue.h")])
p("C52", "Timers fire on time and messages are delivered within bounded delay",
  "A timer callback runs no earlier than its period and, on an idle loop, within a bounded delay after it; a message sent to an idle worker is delivered within a bounded delay.",
  ["schedules"], "all loads and clock behaviours",
  "timing depends on the scheduler",
  [EV + "cye_looper.cpp", EV + "cye_work_thread.cpp"], [("timer and worker loops", EV + "cye_looper.cpp")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    print(len(P), "properties")
