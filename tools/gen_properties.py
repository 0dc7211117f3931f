#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Byte buffer is an exact FIFO of bytes",
 "For every sequence of produce, put, consume, get, resize, compact, clear, copy, move and index operations, a buffer holds exactly the bytes produced and not yet consumed, in order (NUL bytes included), its size equals their count, its capacity is at least the size and at least what resize asked for, and no operation touches memory outside the buffer. A copy is independent of its source, and a moved-from buffer is empty and usable again. A buffer of capacity below one byte is refused with a logic error.",
 ["inputs", "histories"], "all operation sequences up to a bounded depth over small byte strings and lengths, from every reachable buffer state",
 "The unit tests run three fixed sequences; offset/capacity arithmetic depends on the combination of earlier growth, partial consumption, compaction and copies.",
 ["src/include/cppev/buffer.h"],
 [("start/offset/capacity bookkeeping", "src/include/cppev/buffer.h: resize, tiny, clear, produce, consume, get_string"), ("copy()", "src/include/cppev/buffer.h")],
 ["size()", "capacity()", "rawbuf()", "operator[]", "get_string()"],
 [("cap_/start_/offset_", "window of live bytes in the heap array", "buffer.h")])

prop("C02", "Stream reads and writes lose, repeat or reorder no byte",
 "Whatever the kernel answers to each read or write on a stream (short count, interruption, would-block, end of file, connection reset, broken pipe, other error), the bytes appended to the read buffer are exactly those the kernel delivered, in order, and the bytes handed to the kernel are exactly the front of the write buffer, which keeps the rest for a later call. Each call returns the exact number of bytes moved, never moves more than the requested chunk, stops at would-block and continues after an interruption. End of file, reset and broken pipe raise exactly the corresponding flag; any other error is thrown without losing bytes already moved.",
 ["fault_sequences", "inputs"], "all sequences of kernel answers with a bounded number of deviations, all small chunk/step sizes and buffer contents, resumed calls included",
 "Tests read and write one short string on files, pipes and fifos that always accept it whole.",
 ["src/lib/nio.cc", "src/include/cppev/nio.h"],
 [("read_chunk/write_chunk loops", "src/lib/nio.cc"), ("read_all/write_all termination", "src/lib/nio.cc")],
 ["return values", "rbuffer()/wbuffer() contents", "eof()/is_reset()/eop()", "bytes seen by read(2)/write(2)"])

prop("C03", "Each descriptor has one owner and is closed exactly once",
 "A descriptor owned by an I/O object is closed exactly once, by an explicit close, by destruction or because the object is overwritten by a move assignment, and never again afterwards. Moving an I/O object (stream, TCP or UDP socket) transfers the descriptor, the unread and the unsent bytes, the status flags and the address data, and leaves the source owning nothing. Failing factory calls leak no descriptor.",
 ["histories", "fault_sequences"], "all sequences of create, close, move-construct, move-assign, self-move, buffer use and destroy up to a bounded depth over two or three objects of each kind, and every single failing system call inside the factories",
 "Tests move one TCP socket back and forth once with empty buffers, and never look at the descriptor table.",
 ["src/include/cppev/nio.h", "src/lib/nio.cc"],
 [("nio::move / derived moves", "src/include/cppev/nio.h"), ("nio::close and destructor", "src/lib/nio.cc, src/include/cppev/nio.h"), ("factories", "src/lib/nio.cc nio_factory")],
 ["close(2) calls", "open descriptor table", "fd()", "is_closed()", "rbuffer()/wbuffer()", "eof()", "connpeer()"])

prop("C04", "Event loop dispatches exactly the live ready handlers by priority",
 "One loop iteration calls, for every descriptor that is activated and ready, each handler registered for that readiness exactly once, with the registered object, higher priority first; descriptors that are not activated, not ready or have no handler for the event cause no call. A handler whose registration was cleaned out, including by an earlier handler of the same iteration, is not called any more, while removal without cleaning keeps the handler for a later activation (whether such a removal takes effect within the same iteration is left open). A peer that hung up without data is reported to the handler of the activated direction instead of being ignored.",
 ["histories", "inputs"], "all sequences up to a bounded depth of register/remove (all flag combinations), make ready, drain, hang up and run one iteration over two or three descriptors and several priorities, including handlers that remove themselves or others",
 "Tests run one iteration with two sockets of equal priority; no removal, priority, inactive registration or hang-up is exercised.",
 ["src/lib/event_loop_epoll.cc", "src/include/cppev/event_loop.h"],
 [("registration table and priority queue", "src/lib/event_loop_epoll.cc loop_once"), ("epoll mapping", "src/lib/event_loop_epoll.cc fd_map_to_sys/fd_map_to_event")],
 ["handler invocations", "ev_loads()", "return of loop_once()"])

prop("C05", "Event loop can be fed and stopped from any thread",
 "Registering a descriptor or stopping the loop from another thread takes effect under every interleaving with a running loop: every ready registered descriptor is served, the loop returns after a stop request whether that came before, during or between iterations, and a sleeping loop is woken up. These calls are free of data races and deadlocks, and each event is served by the thread running the loop.",
 ["schedules"], "all interleavings, up to a preemption bound, of a looping thread with one or two threads that register, remove or stop",
 "All event loop tests are single threaded and never call the run-forever or stop functions.",
 ["src/include/cppev/event_loop.h", "src/lib/event_loop_epoll.cc"],
 [("stop flag plus wake-up pipe", "src/include/cppev/event_loop.h stop_loop_forever"), ("registration lock", "src/lib/event_loop_epoll.cc")],
 ["handler invocations and their thread", "loop_forever() returning", "happens-before of all accesses"],
 [("stop_", "loop must end", "event_loop.h"), ("fds_", "registered handlers", "event_loop.h")])

prop("C06", "Server connection callbacks fire in order and exactly once",
 "For every connection a TCP server accepts, on-accept runs exactly once and before any other callback of that connection, on-closed runs exactly once after the peer closed or reset it unless the server closed it itself, and no callback runs after on-closed or after the server closed the connection. All callbacks of one connection run on one worker, never concurrently. Every peer that connects while the server runs is accepted, under all thread interleavings and arrival orders, and closing the connection safely is allowed inside any callback.",
 ["schedules", "histories"], "all interleavings up to a preemption bound of acceptor, one or two workers and scripted peers (connect, send, half-close, close in every order), with handlers that write, close safely or do nothing in each callback",
 "No unit test covers the reactor at all; the examples are run by hand.",
 ["src/lib/tcp.cc", "src/include/cppev/tcp.h"],
 [("hand-over of accepted sockets to workers", "src/lib/tcp.cc on_acpt_readable/on_acpt_writable"), ("read/close handling", "src/lib/tcp.cc on_readable/on_writable"), ("safely_close", "src/lib/tcp.cc")],
 ["user callbacks: order, count, thread, connection"])

prop("C07", "Reactor delivers every byte once and in order in both directions",
 "Every byte a peer sends before closing is handed to the read callback exactly once and in order, and every byte given to the asynchronous write of a connection that neither side closes reaches a peer that reads exactly once and in order, however large the message, however the kernel splits it and whichever callback issued the write. The write-complete callback runs exactly when the write buffer has been drained, once per drained asynchronous write.",
 ["schedules", "fault_sequences", "inputs"], "all patterns of short and would-block kernel writes/reads with a bounded number of deviations, message sizes around chunk and socket-buffer limits, writes issued from each callback, all interleavings up to a preemption bound with a reading peer",
 "No unit test covers the reactor; partial writes only happen with large messages and slow peers.",
 ["src/lib/tcp.cc", "src/lib/nio.cc"],
 [("async_write and writable re-registration", "src/lib/tcp.cc async_write/on_writable"), ("read loop", "src/lib/tcp.cc on_readable")],
 ["bytes seen by callbacks", "bytes seen by the peer", "on_write_complete calls"])

prop("C08", "Client makes exactly the requested connections",
 "For every set of connection requests, issued before or while the client runs and from any thread, the client attempts exactly the requested number of connections to each target, split over any number of connector threads, and on-connect runs exactly once for each connection that was established and never for one that failed. A failing target neither stops the client nor affects the other requests. Requests are accepted concurrently without data races or lost requests.",
 ["schedules", "inputs", "fault_sequences"], "all interleavings up to a preemption bound of one or two requesting threads, one or two connectors and workers; request counts 0..3; targets that accept, refuse or fail late",
 "No unit test covers the client.",
 ["src/lib/tcp.cc", "src/include/cppev/tcp.h"],
 [("request map plus wake-up pipe", "src/lib/tcp.cc connector::add/on_pipe_readable"), ("split over connectors", "src/lib/tcp.cc tcp_client::add"), ("late failure check", "src/lib/tcp.cc on_cont_writable")],
 ["connections seen by the listener", "on_connect calls"])

prop("C09", "Reactor shutdown always terminates and is final",
 "Shutting down a running TCP server or client returns under every interleaving with accepting, connecting, reading and writing activity, all its threads have then ended, and no user callback runs afterwards. Shutdown requested before the threads have started to loop is not lost. Starting, shutting down and destroying leave no connection descriptor open except those the user still holds.",
 ["schedules"], "all interleavings up to a preemption bound of shutdown with acceptor/connector/worker activity and a peer connecting, sending or closing",
 "No unit test starts or stops a reactor.",
 ["src/lib/tcp.cc", "src/include/cppev/event_loop.h"],
 [("stop and join order", "src/lib/tcp.cc tcp_server::shutdown/tcp_client::shutdown"), ("loop stop", "src/include/cppev/event_loop.h")],
 ["shutdown() returning", "callbacks after return", "open descriptors"])

prop("C10", "Task pool runs every task exactly once, in order, and drains on stop",
 "Every task added to the task-queue thread pool, singly or in batches and from any thread, before or after the workers start, is executed exactly once, and tasks are taken up in the order they were added. Stopping the pool waits until all tasks added before it have run and then returns with all workers ended, under every interleaving. The queue operations are free of data races and deadlocks and no task waits for ever while a worker is idle.",
 ["schedules"], "all interleavings, up to a preemption bound, of one to three workers with one or two producers adding single tasks and batches, tasks that add tasks, and stop",
 "One test adds 1000 identical tasks from one thread with a free-running scheduler.",
 ["src/include/cppev/thread_pool.h"],
 [("queue lock and condition variable", "src/include/cppev/thread_pool.h task_queue"), ("worker loop and stop flag", "src/include/cppev/thread_pool.h run_impl/stop")],
 ["task executions", "stop() returning"])

prop("C11", "Threads run once; join, wait and cancel report completion truthfully",
 "A started thread object runs its body exactly once; joining returns only after the body has ended, and a timed wait returns true only if the body has returned and returns true whenever it had ended before the wait (a cancelled body need not be reported by a timed wait), and it returns false only after at least the given time. Cancelling a thread blocked at a cancellation point ends it so that joining returns. A thread pool constructs, runs, joins and cancels each of its threads exactly once, every one constructed from equal arguments.",
 ["schedules", "configurations"], "all interleavings up to a preemption bound of a controlling thread (run, timed wait with expiry possible at any moment, join, cancel, detach) with one to three thread bodies; pool sizes 0..3 and argument kinds",
 "Tests use sleeps of 10-50 ms, a single schedule, and never inspect constructor arguments.",
 ["src/include/cppev/runnable.h", "src/include/cppev/thread_pool.h"],
 [("promise/future completion", "src/include/cppev/runnable.h run/wait_for"), ("pool loops", "src/include/cppev/thread_pool.h")],
 ["body side effects", "join()/wait_for()/cancel() results"])

prop("C12", "Log lines come out whole, once, in order, and before destruction ends",
 "Every line completed by any thread is written to the logger's descriptor exactly once, as one contiguous run of bytes with its header, lines of one thread keep their order, and text of different threads never mixes within a line. Destroying a logger always terminates and returns only after all completed lines are written, even when the kernel accepts a write only partly or interrupts it. Logging is free of data races and deadlocks.",
 ["schedules", "fault_sequences"], "all interleavings up to a preemption bound of one or two logging threads, the background writer and destruction, with short and interrupted writes as deviations",
 "One test counts lines after a sleep; it never destroys the logger and only counts newlines.",
 ["src/lib/async_logger.cc", "src/include/cppev/async_logger.h"],
 [("line lock", "src/lib/async_logger.cc operator<<"), ("double buffering and background writer", "src/lib/async_logger.cc run_impl"), ("stop", "src/lib/async_logger.cc ~async_logger")],
 ["bytes passed to write(2) on the descriptor", "destructor returning"],
 [("curr_/buffers_", "buffer being filled / being written", "async_logger.h"), ("recur_level_", "depth of the line lock", "async_logger.h")])

prop("C13", "Shared mutex, condition variable and spinlock exclude and never lose wake-ups",
 "At most one thread or process at a time is between lock and unlock of a shared mutex or spinlock, a try-lock succeeds exactly when the lock is free, and an unlock lets a waiter in any sharing process proceed. Waiting on the shared condition variable releases the mutex while waiting, holds it again when returning, returns with the given condition true, and a waiter whose condition is set under the mutex and signalled is always released. Misuse reported by the system is raised as a system error, never ignored.",
 ["schedules", "histories", "configurations"], "all interleavings up to a preemption bound of two or three threads placed in the same or in different processes, and all short sequences of lock operations by two threads compared with a reference automaton",
 "Tests run free-running counters in one process; cross-process use of the condition variable has one schedule and is not part of the stable suite.",
 ["src/lib/lock.cc", "src/include/cppev/lock.h"],
 [("process-shared attributes", "src/lib/lock.cc constructors"), ("wait loop", "src/lib/lock.cc pshared_cond::wait"), ("error mapping", "src/lib/lock.cc")],
 ["critical sections", "return values", "blocked threads"])

prop("C14", "Read-write lock and its guards exclude writers and release exactly once",
 "A write lock excludes all other holders and a read lock excludes only writers, among threads and processes; try operations succeed exactly when no conflicting holder exists. A guard holds its lock from construction (or a later lock) until unlock, destruction, or being overwritten, releases each lock it acquired exactly once, and passes it on when moved. After any sequence of guard operations ends, the lock is free again and no other holder's lock was released.",
 ["histories", "schedules", "configurations"], "all sequences up to a bounded depth of guard construct/lock/unlock/move/assign/destroy and direct lock operations over two locks, against a reference automaton; all interleavings of two or three threads in same or different processes",
 "Tests move a guard there and back once and use fixed hand-shaken schedules.",
 ["src/lib/lock.cc", "src/include/cppev/lock.h"],
 [("guard move and destruction", "src/lib/lock.cc rdlockguard/wrlockguard"), ("rwlock wrappers", "src/lib/lock.cc pshared_rwlock")],
 ["try_rdlock()/try_wrlock() results", "critical sections"])

prop("C15", "One-time fence releases all waiters after notify, none before",
 "No wait on the one-time fence returns before a notify has begun, and after a notify every current and future wait returns, for any number of waiting threads or processes, repeated waits and repeated notifies, under every interleaving. Everything written before the notify is visible after the wait, and to a caller of the state query that got true, without data races. The state query returns true only after a notify began and always once a notify returned.",
 ["schedules"], "all interleavings up to a preemption bound of one to three waiters, one or two notifiers and a querying thread, in same or different processes",
 "Tests have one waiter and rely on a 10 ms sleep to order it.",
 ["src/lib/lock.cc", "src/include/cppev/lock.h"],
 [("flag, mutex and condition", "src/lib/lock.cc pshared_one_time_fence")],
 ["wait() returning", "ok()", "payload visibility"])

prop("C16", "Barrier opens for everyone exactly when the last participant arrives",
 "No wait on a barrier of N returns before N waits have been called, and once N have been called all N return under every interleaving, also when further threads arrive. Every wait beyond the first N raises a logic error and disturbs none of the others. Everything written before arriving is visible to all after the barrier, without data races.",
 ["schedules"], "all interleavings up to a preemption bound of N+1 threads for N = 1..3, in same or different processes",
 "The test orders the threads by sleeping and only tries a surplus arrival after everyone left.",
 ["src/lib/lock.cc", "src/include/cppev/lock.h"],
 [("count, mutex and condition", "src/lib/lock.cc pshared_barrier")],
 ["wait() returning or throwing", "payload visibility"])

prop("C17", "Shared memory has one creator and never loses stored data",
 "When several processes open the same shared memory name concurrently, all succeed, exactly one becomes creator, and all see the same zero-initialised memory of the requested size. After the constructor has returned in a process, the whole region is accessible there and whatever a process stores stays until overwritten by a user, in particular it is not wiped by another process that is still opening it. Moving transfers the mapping, every mapping is unmapped exactly once, failing openings leak no descriptor, and unlinking removes the name only.",
 ["schedules", "histories", "fault_sequences"], "all interleavings at system-call and memory-initialisation granularity of two or three opening processes, all short sequences of open/write/read/move/unlink/destroy, each system call failing once",
 "One test opens from two processes with a fixed delay; its sibling that races is excluded because it is flaky.",
 ["src/lib/ipc.cc", "src/include/cppev/ipc.h"],
 [("open/create/retry protocol", "src/lib/ipc.cc shared_memory"), ("move/destructor", "src/include/cppev/ipc.h, src/lib/ipc.cc")],
 ["creator()", "bytes in ptr()", "mappings and descriptors"])

prop("C18", "Named semaphore counts exactly across processes",
 "The number of completed acquires never exceeds the number of completed and running releases, an acquire blocks exactly while the count is zero and every blocked acquire proceeds once enough releases happened, under every interleaving and also when a signal interrupts the wait. A try-acquire never blocks and takes one unit exactly if one is available. Of several concurrent openers of a name exactly one is creator and all share one counter starting at zero; moving transfers the handle and each handle is closed exactly once.",
 ["schedules", "histories", "fault_sequences"], "all interleavings up to a preemption bound of two or three openers/acquirers/releasers with interrupted waits as deviations, and all short operation sequences against a reference counter",
 "The semaphore is not covered by the stable suite at all.",
 ["src/lib/ipc.cc", "src/include/cppev/ipc.h"],
 [("open/create/retry protocol", "src/lib/ipc.cc semaphore"), ("acquire/release loops", "src/lib/ipc.cc")],
 ["acquire()/try_acquire() results", "creator()"])

prop("C19", "Timed scheduler fires the exact planned sequence and stops cleanly",
 "Each periodic task fires at the start time, which is not before the end of the initialisation tasks, and then at every multiple of its period, with the planned time as its argument, exactly once per due time, in time order and for equal times in priority order, never before its time and without skipping when a task or the wake-up is late. Initialisation tasks run once before the first firing, exit tasks run once after the last one, in the given order; with alignment the first firing is on a whole second. Destruction stops the firing, always terminates, and is free of data races under every interleaving.",
 ["schedules", "configurations", "inputs"], "all interleavings up to a preemption bound of the scheduler thread and destruction under a virtual clock with late wake-ups and slow tasks as deviations; all sets of up to three commensurate frequencies and priorities from a small menu, over several hyper-periods",
 "Tests count firings of real-time runs within 5 per cent.",
 ["src/include/cppev/scheduler.h", "src/include/cppev/utils.h"],
 [("time table of the hyper-period", "src/include/cppev/scheduler.h constructor"), ("firing loop", "src/include/cppev/scheduler.h thread"), ("rounding up to a second", "src/include/cppev/utils.h ceil_time_point")],
 ["task invocations and their arguments", "destructor returning"])

prop("C20", "Subprocess input, output and exit status are transferred completely",
 "For every interleaving of the child's reading, writing and exit with the parent's polling, after waiting for a subprocess its captured standard output and standard error are exactly the bytes it wrote to each, of any length and content, and all input given is delivered to a child that reads it, in order. The exit status reported is that of the child; polling reports completion exactly once the child has ended and may be repeated, as may waiting. Waiting never hangs while the child makes progress, and system-call failures raise errors instead of ending the calling process.",
 ["schedules", "inputs", "fault_sequences"], "all interleavings up to a preemption bound of a scripted real child process (reads, writes of sizes around the pipe capacity, exit or killed by signal) with the parent's communicate/poll/wait calls; each system call failing once",
 "Tests run children with a few bytes of output and wait 100 ms.",
 ["src/lib/subprocess.cc", "src/include/cppev/subprocess.h"],
 [("poll/communicate loop", "src/include/cppev/subprocess.h wait, src/lib/subprocess.cc"), ("pipe plumbing", "src/lib/subprocess.cc subp_open")],
 ["stdout()/stderr()/returncode()", "poll()", "bytes received by the child"])

prop("C21", "Subprocess starts with exactly the requested command, environment and pipes",
 "The child is started with the program and the space-separated arguments of the command, argument zero being the base name of the program, with exactly the given environment, and with its standard streams connected to the pipes of its handle; it holds no descriptor of another handle, also when several threads start subprocesses at a time, and sees the end of its input when its handle is destroyed. A command that cannot be executed yields a failing status and no output from the parent program. Starting, finishing and destroying any number of subprocesses leaves no descriptor behind in the parent, each descriptor is closed at most once, and the handle's moves keep it usable.",
 ["inputs", "configurations", "histories"], "all commands and environments from a small exhaustive menu, executed for real by a reporting helper; all sequences of open, move, communicate, wait, destroy up to a bounded depth with the descriptor table compared; two or three threads that start subprocesses, all interleavings up to a preemption bound",
 "Tests check one environment variable and a missing command.",
 ["src/lib/subprocess.cc", "src/include/cppev/subprocess.h"],
 [("fork/dup2/exec", "src/lib/subprocess.cc subp_open"), ("descriptor handling", "src/lib/subprocess.cc")],
 ["argv/envp/descriptors seen by the child", "descriptor table of the parent"])

prop("C22", "String helpers agree with their definition on all short strings",
 "Splitting cuts the text at every non-overlapping occurrence of the separator from the left and joining the pieces with the same separator gives the text back; joining places the separator exactly between the pieces, and gives the empty string for no pieces. Stripping removes exactly the maximal run of whole occurrences of the given characters string at the left end, the right end or both (left first), and nothing else. Empty separators or strip strings are refused with a runtime error, and NUL bytes are ordinary characters.",
 ["inputs"], "all texts up to a bounded length over a three-letter alphabet including NUL, all separators/strip strings up to length 3, all piece lists up to 4 short pieces",
 "Tests check about 17 hand-picked strings.",
 ["src/lib/utils.cc", "src/include/cppev/utils.h"],
 [("split/join/strip loops", "src/lib/utils.cc")],
 ["returned strings", "exceptions"])

prop("C23", "Divisor, multiple and time helpers compute their mathematical value",
 "For positive integers, for pairs and for lists of two or more in any order, the greatest common divisor divides all of them and is the largest such number, and the least common multiple is the smallest positive number divisible by all, whenever it is representable. Rounding a time point up gives the first whole second strictly later than it, for clocks of any resolution (a second or finer). Formatting a timestamp renders the given second in local time with the given or the default format (a negative timestamp means the current time), and sleeping until a time point returns no earlier than it.",
 ["inputs"], "all pairs up to a bound, all short lists over a menu, values near the representable limit; all time points on a grid around second boundaries for clocks of nano-, micro- and millisecond resolution; a grid of timestamps and formats",
 "Tests check six lists each and no time helper.",
 ["src/lib/utils.cc", "src/include/cppev/utils.h"],
 [("Euclid loop", "src/lib/utils.cc"), ("ceil_time_point/timestamp", "src/include/cppev/utils.h, src/lib/utils.cc")],
 ["returned values"])

prop("C24", "Signal helpers implement the blocked/pending/disposition state machine",
 "For every sequence of the signal helpers, a blocked signal that is raised stays pending until unblocked or waited for, waiting consumes exactly one pending instance of a requested signal and reports which, suspending returns only after one of the requested signals was handled and restores the mask, ignoring discards, resetting restores the default action, and a handler runs exactly once per delivered instance. The mask and pending queries report the current state of the calling thread and change nothing; blocking one signal or a list affects exactly those signals. Process and group checks are true exactly while the process or group exists.",
 ["histories"], "all sequences up to a bounded depth of the helpers over two signals, each executed in a fresh process and compared with a reference automaton",
 "Tests run four fixed scripts per signal with sleeps, many of whose expectations run in a child whose failures are not seen.",
 ["src/lib/utils.cc", "src/include/cppev/utils.h"],
 [("sigaction/sigmask/sigwait/sigsuspend wrappers", "src/lib/utils.cc")],
 ["mask and pending queries", "handler executions", "return values"])

prop("C25", "Stream sockets connect, name, configure and shut down as asked",
 "For each address family, a listening socket accepts every connection in arrival order and at most the requested batch, socket and peer names on both ends agree with the addresses bound and connected (for local sockets, the path of the listening side), and a connect attempt reports failure exactly when it failed. Each option setter changes exactly its option and the getter reads it back. Shutting down one direction stops exactly that direction; an unusable address is refused with an error rather than altered.",
 ["histories", "configurations", "inputs", "fault_sequences"], "all families and short sequences of bind/listen/connect/accept(batch)/send/shutdown(mode)/close, all option pairs set in every order, address strings from a menu with valid, invalid and over-long ones, accept failing transiently",
 "Tests set each option once on an unconnected socket and accept one connection per family without exchanging data.",
 ["src/lib/nio.cc", "src/include/cppev/nio.h"],
 [("address conversion", "src/lib/nio.cc set_ip_port/set_path/query_ip_port_family"), ("option wrappers", "src/lib/nio.cc"), ("accept loop and shutdown", "src/lib/nio.cc")],
 ["accept()/connect() results", "sockname()/peername()/connpeer()", "get_* options", "data transfer after shutdown"])

prop("C26", "Datagrams keep their boundaries and failures keep the data",
 "Each datagram send transmits the pending write-buffer bytes as one datagram and removes exactly them; each receive appends exactly one datagram (of at most the configured UDP buffer size) to the read buffer and reports its sender (for local sockets the path of the receiving socket, as documented), and empty datagrams are delivered like any other. A send or receive that fails or would block raises an error and changes neither buffer. This holds for IPv4, IPv6 and local sockets in every order of sends and receives.",
 ["histories", "fault_sequences", "inputs"], "all sequences up to a bounded depth of put/send/receive/consume over two sockets per family with small datagrams including empty ones, receives on an empty queue, and each system call failing once",
 "No unit test sends a datagram; only socket options are tested.",
 ["src/lib/nio.cc", "src/include/cppev/nio.h"],
 [("recv/send", "src/lib/nio.cc nsockudp")],
 ["rbuffer()/wbuffer()", "returned sender", "datagrams seen by the other side"])

prop("C27", "Dynamic loader binds symbols of the named library or reports failure",
 "Opening a library either yields a loader or raises an error naming the cause, and looking up a symbol yields the address of that symbol in the opened library or its dependencies or raises an error; a failed lookup leaves the loader usable. Each loader holds exactly one reference to its library: the library stays loaded while any loader for it exists and is released with the last one.",
 ["histories", "inputs"], "all sequences up to a bounded depth of open (existing, missing, invalid), look up (function, data, missing symbol) and destroy over two libraries, compared with a reference count model",
 "Tests load one library and existing symbols once.",
 ["src/include/cppev/dynamic_loader.h"],
 [("dlopen/dlsym/dlclose wrappers", "src/include/cppev/dynamic_loader.h")],
 ["returned pointers and their behaviour", "exceptions", "whether the library is loaded"])

prop("C28", "A failing connection or system call does not take the reactor down",
 "When an accept, connect, read or write of a reactor fails for one connection (aborted or reset connection, timeout, unreachable or invalid target, no descriptors left, interruption), only that connection is affected: it is dropped and, if it was announced, reported closed exactly once, while the server or client keeps serving the other and later connections. No such failure ends the process or leaves a thread spinning.",
 ["fault_sequences", "schedules"], "every single failing system call (each errno of a menu at each call position) in server and client scenarios with two connections, combined with all interleavings up to a small preemption bound",
 "No unit test covers the reactor or injects failures.",
 ["src/lib/tcp.cc", "src/lib/nio.cc"],
 [("error paths of accept/read/write/connect", "src/lib/nio.cc"), ("worker/acceptor/connector handlers", "src/lib/tcp.cc")],
 ["process survival", "on_closed calls", "service of other connections"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
