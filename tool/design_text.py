HEAD = """# Deciding cyclone's properties by static analysis

Every check decides its property from the current source in /repo, without running it. This file is assembled by `tool/gen_design.py`
from the properties, the explanation at the head of each rule (`sa/rules/cNN.py`), the notes (`tool/notes.py`), the planted changes
(`seeded/*/meta.json`) and `known-findings.txt`, plus the hand-written text in `tool/design_text.py`.

## How a check works

1. **Front end** (`sa/build.py`, `tool/irx.cpp`, `setup.sh`). Every library source, every sample that a rule asks for and one file that instantiates
   the header-only templates (`sa/drivers/templates.cpp`, never linked or run) are compiled by clang 18 to LLVM IR with the project's own configuration
   (epoll, readv/writev, pipe2, timerfd, timed mutexes), unoptimised, with debug locations. `irx` (a small program of ours against the LLVM libraries)
   links the modules, promotes scalars to SSA, inlines, and writes the normalised program as JSON: functions, blocks, instructions, struct layouts with member names, class hierarchy, constant globals.
   Results are cached under `build/` by a hash of all inputs, so a change in /repo's working tree always leads to a new analysis.
2. **Views** (`sa/views`). A view says which functions stay functions and which are inlined. In the primary view every *public* function of the library stays and
   every private helper and template helper is inlined into it. A rule therefore never sees how a function is cut into helpers: extracting or merging helpers does not change what is analysed.
   Assertions are compiled out (`-DNDEBUG`) unless a rule needs them, so no rule may use an assertion as a guard.
3. **Engines**
   * `sa/ir.py` Walker: forward, path-sensitive dataflow over one function. The state holds symbolic values (loads are numbered, so a value read twice is two values unless memory cannot have changed),
     interval facts and relational facts from branches, known memory, and the rule's own typestate. Loops are iterated until no new state appears; states are merged only when equal. Facts about values no longer used are dropped, which
     makes the state space finite and small.
   * `sa/num.py`, `sa/poly.py` Num: abstract interpretation in a disjunctive polyhedral domain of our own (exact rational/integer linear constraints, powers of two, machine wrap-around made explicit), with memory blocks of symbolic size,
     cells, and content segments ("bytes [lo,hi) of this block are positions pos.. of stream S"). Each method is started from the class invariant with symbolic fields and arguments and has to end in it again: that is induction over all histories.
     Loops need a decreasing measure. No solver is asked for paths: entailment is Fourier-Motzkin/simplex on the constraints of the abstract state.
   * interprocedural summaries: effects over the call graph with virtual calls resolved by class hierarchy and function objects resolved where they are stored (`sa/locks.py`, `sa/evt.py`, `sa/srv.py`, `sa/cli.py`, `sa/net.py`, `sa/fd.py`, `sa/sigpipe.py`, `sa/packet.py`).
4. **Answer** (`sa/core.py`). Rules report obligations with a place and the rule applied; each has floors on the number of constructs it must have found (`need`), so a rule that no longer finds what it is about gives *no answer* (exit 2) rather than passing.
   Evidence lists the obligations by rule, the functions and the abstract states. A violation prints the path (source lines) into `evidence/<id>.replay.txt`.

Roles are found by use, not by name, wherever private names are involved: the claim index of the lock-free queue is the one advanced by a compare-exchange in push and not in pop, the send buffer lock is the lock taken around the send buffer, the shutdown command is the id the acceptor's handler compares
before it runs the shutdown branch, and so on. Public names (classes, public methods, public constants) are used as they are: they are what users rely on.

## What the answer means

* "proof" level: all obligations of an inductive argument discharged by the polyhedral engine, from the class invariant, for every state, argument and path of the methods named. Trusted: clang's front end, irx, the engine, the library models named in the evidence.
* "other" level: sound path coverage of the code for the stated rule (every path of every function in scope is represented), with the modelling decisions listed as assumptions in the evidence. For schedules the rules state the
  synchronisation discipline whose violation is the bug (what is written under which lock, before which store, after which check); they do not enumerate interleavings.
* Bounds: none on lengths, counts, histories or threads, except where a section says so. The walker's limit of 60000 states and the numeric engine's time bounds lead to "no answer", never to a pass.
"""
LIMITS = """## Behaviour that is outside what is decided

* Only the Linux configuration is analysed (epoll looper, pthread, timerfd). The select and kqueue loopers, `Pipe::construct_socket_pipe` and other Windows code are compiled out here.
* malloc and operator new are assumed to succeed; no block is larger than 2^47 bytes; a RingQueue capacity within 16 of SIZE_MAX/8 overflows the rounding and is excluded.
* Exceptions are not modelled (the library throws none; std::bad_alloc is excluded with allocation failure).
* `MinMaxValue` of a floating type starts its maximum at `numeric_limits::min` (the smallest positive value); only integer instantiations exist and are checked. Copying a `PeriodValue` would destroy its mutex twice; nothing copies one.
* An established client connection that closed cannot be reconnected (connect asserts that no socket is left); sending the cached bytes may run on_close before on_connected(true); a failure callback that disconnects and connects again gets its new attempt aborted. These are consequences of the interface, not violations of a stated property.
* `TcpServer::stop_listen` and `get_bind_address` read the table of listening sockets from the caller's thread without synchronisation; C21 and C27 decide the acceptor's own accesses only.
* C27's termination depends on the peers of draining connections (a peer that never reads keeps a disconnecting connection open); the property says so.
* `get_log_filename` returns a pointer into a string that another thread may replace; `disk_log` adds one to a length that would have to be INT_MAX to overflow.
* `Address::hash_value` uses part of the digest; equality does not depend on it.

## False alarms met and what was done

* RingBuf power-of-two rounding loop was not bounded: the domain learned powers of two instead of the rule being weakened (C01).
* Lock summaries merged two locks of the same type in different objects: locks are now identified by access path and class (C06, C07).
* Helper extraction: rules first keyed on private helper functions were quiet on the tree but alarmed after a helper was extracted or inlined. All rules were moved to the primary view, where only public functions exist.
* Values kept in locals across calls: the walker forgot them, so a saved `is_last` flag looked unrelated to the test it came from. Locals whose address does not escape now survive calls.
* A flag held in a boolean variable (a phi of constants) merged the paths it distinguishes; such phis now keep states apart.
* C25: reading until the kernel reports would-block was demanded of every path; level-triggered polling makes one read per event enough. The rule now asks for re-arming only where interest was dropped.
* C29: the retry timer's absence after a failure callback that itself reconnected looked like a lost retry; it turned out to be the reverse, a real defect (406a66f).
* C03: a growing queue was at first required to hold a power-of-two storage; the rule now accepts any invariant that is inductive (with or without it).
* C05: the extreme-value loop that re-uses the value a failed exchange observed (instead of loading again) was not recognised; values meeting in a phi now count as observed when all their sources are.
"""
