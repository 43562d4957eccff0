#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (kept as a script so that statements stay reviewable).
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

BUF = "src/include/cppev/buffer.h"
p("C01", "A buffer is an exact byte FIFO and never touches memory it does not own",
  "Whatever sequence of produce, consume, read-back, compact, enlarge and clear calls is made on a buffer (with lengths within what it stores), its size, its content through every accessor, and every string taken out of it are exactly the bytes produced and not yet consumed, in order and including zero bytes. Capacity never shrinks, is always large enough for what is stored and at least what was asked for, and bytes beyond the stored ones are zero after clear or compaction. No call reads or writes outside the buffer's own storage.",
  ["inputs", "histories"], "for every buffer state reachable by any call sequence, every byte content and every length up to 2^30 bytes of capacity",
  "test_buffer.cc samples a handful of short sequences with small ASCII strings; it never varies start/end offsets, growth boundaries or embedded zero bytes together.",
  [BUF], [("storage management and offsets", BUF), ("doubling growth", BUF + " resize"), ("compaction", BUF + " tiny")],
  [("cap_/start_/offset_", "0 <= start_ <= offset_ <= cap_, storage has cap_ bytes", BUF)])
p("C02", "Buffer copies are equal and independent; moves transfer the content",
  "Copying a buffer (construction or assignment, self-assignment included) gives a buffer with the same content and capacity, leaves the source unchanged, and afterwards changing or destroying either does not affect the other. Moving a buffer transfers exactly its content and capacity to the target, releases what the target held, and leaves the source safe to destroy or assign to.",
  ["inputs", "histories"], "for every reachable pair of buffer states",
  "Tests copy one or two small buffers and compare strings; independence, self-assignment and storage release are not observable there.",
  [BUF], [("copy()", BUF), ("defaulted move", BUF)])

NIO = "src/lib/nio.cc"; NIOH = "src/include/cppev/nio.h"
p("C03", "Stream reads append exactly the received bytes and classify the stop",
  "A stream read appends to the read buffer exactly the bytes the kernel delivered, in order, after what was already buffered, never asks for or stores more than allowed, and returns how many it appended - whatever short reads and interruptions occur. It stops only at the requested length, at end-of-file, at a connection reset, or when the descriptor would block; end-of-file and reset are reported through eof()/is_reset() exactly when they happened, and any other error is thrown without losing bytes already received.",
  ["inputs", "fault_sequences", "histories"], "for every sequence of read() results (short counts, EINTR, EAGAIN, EOF, ECONNRESET, other errors), every requested length or step and every initial read-buffer state",
  "Kernel result sequences (EINTR in the middle, short reads, ECONNRESET after data, reads that end exactly on a step boundary) cannot be scheduled by the socket tests.",
  [NIO, NIOH, BUF], [("read_chunk", NIO), ("read_all", NIO)], None, ["arguments and results of read()"])
p("C04", "Stream writes send exactly the buffered bytes in order and keep the rest",
  "A stream write hands the kernel the oldest unsent bytes in order, removes from the write buffer exactly the bytes the kernel accepted (no byte lost, repeated or reordered), returns that number and never sends more than requested - whatever partial writes and interruptions occur. It stops only when the requested amount is sent or nothing is left, when the descriptor would block, or when the peer is gone; a broken pipe and a reset are reported through eop()/is_reset() exactly when they happened, and any other error is thrown with the unsent bytes still queued.",
  ["inputs", "fault_sequences", "histories"], "for every sequence of write() results, every requested length or step and every initial write-buffer state",
  "Partial writes, EINTR and EPIPE/ECONNRESET at chosen points cannot be produced by the tests' loopback sockets.",
  [NIO, NIOH, BUF], [("write_chunk", NIO), ("write_all", NIO)], None, ["arguments and results of write()"])
p("C05", "Datagrams are sent and received whole, to and from the right address",
  "Sending a datagram passes the write buffer's whole unsent content to the kernel once, addressed to exactly the given address and port or path, and consumes only what the kernel accepted; receiving appends exactly one datagram's bytes after what is already in the read buffer, within its free capacity, and returns the sender's address, port and family. A failed send or receive is reported by an exception and leaves both buffers as they were; a zero-length datagram is not an error.",
  ["inputs", "fault_sequences"], "for every buffer state, address family, address and kernel result",
  "Tests exchange one short datagram on loopback; failures (would-block, unreachable), empty datagrams and pre-filled buffers are never driven.",
  [NIO, NIOH], [("nsockudp::recv/send/send_unix", NIO)], None, ["arguments and results of sendto()/recvfrom()"])
p("C06", "Every descriptor has one owner and is closed exactly once",
  "A stream or socket object closes its descriptor exactly once over its lifetime, whether by close() (also when called repeatedly) or by destruction, and never closes a descriptor it does not own. Moving an object (construction or assignment, for streams, TCP and UDP sockets) transfers the descriptor, its open/closed state, both buffers' contents, the status flags, family and recorded peer to the target, closes what the target owned before, and leaves the source owning nothing; self-assignment changes nothing.",
  ["histories", "inputs"], "for every sequence of construct, move, close and destroy operations and every buffer content",
  "Tests never move a stream or socket with pending data, close twice, or count close() calls.",
  [NIO, NIOH], [("nio::move/close/~nio", NIOH), ("move overrides", NIOH)], None, ["calls of close()"])
p("C07", "Socket addresses are encoded and decoded faithfully",
  "Binding, connecting and sending use exactly the family, address bytes, port in network order and address length that the caller's family, IP or path and port denote (any-address when no IP is given; a Unix path that fits is passed unchanged); text that is not an address of that family is rejected with an exception before any network call. Addresses reported back (sockname, peername, the sender of a datagram) are the kernel's address and port decoded, and for Unix sockets and connpeer() the recorded path, IP and port.",
  ["inputs", "fault_sequences"], "for every port 0..65535, address, path shorter than the system limit, family and kernel result",
  "Tests use loopback addresses and a few ports; byte order, family-specific lengths and failure paths are not separated.",
  [NIO, NIOH], [("set_ip_port/set_path/query_ip_port_family", NIO), ("fmap_/faddr_len_", NIO)], None, ["sockaddr passed to bind/connect/sendto"])
p("C08", "Socket options reach the kernel as asked and read back as reported",
  "Each option setter issues exactly one request for its own option (level, name and value, at the object's descriptor) and nothing else, and each getter returns exactly what the kernel reports for that option, booleans meaning non-zero. A kernel failure is always reported as a system error, never swallowed or turned into a value.",
  ["inputs", "fault_sequences"], "for every option, every argument value and every kernel answer",
  "Tests set and read a few values that the kernel happens to accept; a wrong level or name for a rarely used option or an ignored failure goes unnoticed.",
  [NIO, NIOH], [("set_so_*/get_so_*/tcp_nodelay", NIO)], None, ["setsockopt()/getsockopt() calls"])
p("C09", "TCP control operations act on the right descriptor, direction and result",
  "shutdown() closes only the direction asked for; connect reports success exactly when the kernel accepted the request or it is in progress; check_connect is true exactly when the kernel reports no pending error; listen uses the given backlog. accept() returns every connection the kernel handed over, once each, in order, with the listener's family, at most the requested number, and stops when none is pending; a socket that cannot be created or configured raises a system error.",
  ["inputs", "fault_sequences"], "for every shutdown mode, batch size and sequence of kernel results",
  "Half-close and error results of connect/accept at a chosen point are never exercised; tests only see loopback successes.",
  [NIO, NIOH], [("shutdown/connect/listen/accept/check_connect", NIO), ("nio_factory", NIO)])

EV = "src/lib/event_loop_epoll.cc"; EVH = "src/include/cppev/event_loop.h"
p("C10", "An event loop pass runs each ready callback exactly once, by priority",
  "For every set of readiness reports, one pass of the loop invokes, exactly once each and with the right object, every registered handler whose descriptor was reported ready for an event it was registered for, and no other handler. Handlers run in order of registered priority, higher priority first, and nothing queued in one pass is left for or repeated in the next; an interrupted wait is harmless and any other wait failure is thrown.",
  ["histories", "inputs", "fault_sequences"], "for every registration set, every batch of readiness reports and every priority assignment",
  "Tests register one or two descriptors; orderings among several ready descriptors, both-event reports and interrupted waits are not produced.",
  [EV, EVH], [("loop_once", EV), ("fds_/fd_cbs_", EVH)], None, ["handler invocations", "epoll_wait results"])
p("C11", "Registering and removing descriptors keeps kernel and callbacks in step",
  "Registering adds the handler for that descriptor and event, binds the object to this loop and, if activation is asked, starts kernel monitoring for exactly the requested events; removing stops kernel monitoring and, if cleaning is asked, drops every handler of that descriptor and no other's. After removal with cleaning the handlers are not called by later passes and the loop holds no reference to the object, the load figure equals the number of registered handlers, and a kernel refusal is reported as a system error.",
  ["histories", "inputs", "fault_sequences"], "for every registration state, event combination, flag combination and kernel answer",
  "Tests use the default flags on fresh descriptors; flag combinations, several handlers per descriptor and kernel refusals are not covered.",
  [EV, EVH], [("fd_register/fd_remove", EV), ("stop_loop_forever", EVH)], None, ["epoll_ctl calls"])

TCP = "src/lib/tcp.cc"; TCPH = "src/include/cppev/tcp.h"
p("C12", "Connection callbacks follow the connection's life in order",
  "For every new connection the accept or connect callback runs exactly once and before any other callback of that connection, and afterwards the connection is monitored for incoming data; a failed connect is counted as a failure of that host and never announced. Each readable report delivers the received bytes through the read callback exactly once and then empties the read buffer; when the peer has closed or reset, the closed callback runs exactly once after that and the connection is dropped from its loop, and a connection the user closes inside a callback is never used again. Each event calls the handler set for it on the server or client, and external_data gives the pointer passed at construction.",
  ["histories", "schedules", "fault_sequences"], "for every kernel result and every action (nothing, async write, close) a user callback may take",
  "Tests of the reactor are example programs outside the suite; no test in the suite drives tcp.cc at all.",
  [TCP, TCPH], [("iohandler::on_readable/on_writable/on_acpt_writable/on_cont_writable", TCP), ("safely_close", TCP)])
p("C13", "async_write sends everything and completes exactly once",
  "async_write sends the write buffer's content without blocking: if all of it is accepted at once the write-complete callback runs once, immediately; otherwise the unsent bytes stay queued, the connection is watched for writability, and once later writable reports have drained the queue the write-complete callback runs exactly once and the connection returns to being watched for incoming data. No byte is lost, repeated or reordered, and completion is never announced while bytes remain.",
  ["histories", "fault_sequences"], "for every pending content, every sequence of partial write results and every action of the completion callback",
  "No test of the suite runs the reactor, and partial writes need a full socket buffer.",
  [TCP, TCPH, NIO], [("async_write", TCP), ("iohandler::on_writable", TCP)])
p("C14", "Adding t connection targets leads to exactly t connection attempts",
  "tcp_client::add (and its Unix variant) with a count t schedules exactly t attempts for that target in total, however many connectors share them and however additions interleave with pick-up, and each is attempted exactly once; every attempt is either handed to exactly one worker or recorded as one failure of that target. Several additions of one target before pick-up accumulate.",
  ["inputs", "schedules", "histories"], "for every t >= 0, number of connectors, and interleaving of additions with the connector thread",
  "The suite never runs the client; the split over connectors and the hand-over race only show under particular counts and timings.",
  [TCP, TCPH], [("tcp_client::add/connector::add/on_pipe_readable", TCP)])
p("C15", "Accepted connections go to one least-loaded worker each",
  "Every connection accepted by a listening socket is registered with exactly one worker loop, for the accept callback, and none is dropped or registered twice. The worker chosen is one whose load is minimal among all workers, and the random chooser only ever returns one of the workers.",
  ["inputs", "histories"], "for every number of workers, every load assignment and every batch of accepted connections",
  "The suite never runs the reactor; load ties and loads differing by one only show up with particular assignments.",
  [TCP, TCPH], [("minloads_get_evlp/random_get_evlp", TCP), ("acceptor::on_acpt_readable", TCP)])

TP = "src/include/cppev/thread_pool.h"; RUN = "src/include/cppev/runnable.h"
p("C16", "Every queued task runs exactly once, in FIFO order, and stop drains the queue",
  "Each task added to a task-queue pool, singly or as a batch, by any thread, is taken by exactly one worker and run exactly once; tasks are taken in the order they were added, and run outside the pool's lock. No worker stays asleep while a task is queued or after a stop, and stop() returns only after all tasks added before it have run and every worker has ended.",
  ["schedules", "histories"], "for every number of workers, every interleaving of additions, pick-ups and stop, with spurious wake-ups",
  "Tests run a few thread counts on one schedule each; lost wake-ups, double pick-up and draining at stop depend on interleavings.",
  [TP], [("add_task/run_impl/stop", TP)], [("queue_, stop_", "shared state guarded by lock_", TP)])
p("C17", "Threads and pools start, join and report completion exactly as asked",
  "Running a runnable starts exactly one thread that executes its body once and only then reports completion: a timed wait returns true exactly when the body has finished and false when the time ran out first. Join, detach, cancel and signal act on that thread, failures to create, join or detach are thrown, and a pool performs run, join and cancel once on each of its threads and exposes exactly the number of threads asked for.",
  ["inputs", "schedules", "fault_sequences"], "for every pool size, thread-library result and wait outcome",
  "Tests use sleeps and successful calls only; failure results and the order of completion versus body are not observable.",
  [RUN, TP], [("runnable::run/join/detach/cancel/wait_for/send_signal", RUN), ("thread_pool", TP)])
SCH = "src/include/cppev/scheduler.h"
p("C18", "The timed scheduler fires each task at its own frequency and in priority order",
  "Every timed task is triggered at all multiples of its interval from the start point and at no other time, once per due time, and tasks due together run in priority order; the timestamp passed is the due time. Init tasks all run once before the first trigger, exit tasks all run once after the last one, no task is triggered after the scheduler is destroyed, and with alignment the start point is the next whole second.",
  ["inputs", "schedules"], "for every set of tasks with given frequencies and priorities and every stop time",
  "Tests count triggers over real seconds with slack; exact due times, order among simultaneous tasks and stop in the middle of a round are not settled.",
  [SCH, "src/lib/utils.cc"], [("timed_scheduler", SCH), ("ceil_time_point", "src/include/cppev/utils.h")])
LOG = "src/lib/async_logger.cc"
p("C19", "Logged text reaches the output whole, in order and without mixing",
  "Every log statement that ends with endl is written to the logger's output exactly once, completely, with one header and a newline, in the order the statements were completed, and text of concurrent statements from different threads is never interleaved inside a line. The logging lock is free after each completed statement, no finished line stays unwritten while the logger lives, and lines finished before destruction are written before it returns.",
  ["schedules", "histories", "inputs"], "for every sequence of operands, every interleaving of logging threads with the writer thread, and every point of destruction",
  "The test only prints from several threads and looks at nothing.",
  [LOG, "src/include/cppev/async_logger.h"], [("operator<<", LOG), ("run_impl", LOG)], [("buffers_/curr_/recur_level_", "double buffer guarded by lock_", LOG)])

LCK = "src/lib/lock.cc"; LCKH = "src/include/cppev/lock.h"
p("C20", "Locks translate to the right lock operation and report its outcome",
  "Each lock, unlock, try and wait or notify operation of the spin lock, process-shared lock, condition and read-write lock performs exactly the corresponding operation on its own underlying primitive, initialised process-shared where promised; a try-variant returns true exactly when the lock was obtained and false exactly when it is busy. Every other failure of the primitive is thrown as a system error carrying its code, and construction and destruction initialise and release each primitive and attribute object exactly once.",
  ["inputs", "fault_sequences"], "for every result the thread library may return",
  "Tests use uncontended or simply contended locks; error results and attribute settings are invisible to them.",
  [LCK, LCKH], [("spinlock/pshared_lock/pshared_cond/pshared_rwlock", LCK)])
p("C21", "Read-write lock guards release each acquisition exactly once",
  "A guard holds its read or write lock from construction until it is unlocked, destroyed or moved from, and for every sequence of lock, unlock, move construction, move assignment and destruction each acquisition is released exactly once, by the guard that holds it, in the mode it was acquired. Assigning over a guard that holds a lock releases that lock first; self-assignment changes nothing.",
  ["histories"], "for every sequence of guard operations over any number of locks",
  "Tests only use guards in simple scopes, never moving them over each other.",
  [LCK, LCKH], [("rdlockguard/wrlockguard", LCK)])
p("C22", "Fence, barrier and predicate waits never pass early and never sleep past release",
  "A waiter of the one-time fence returns only after notify, and once notified all present and future waiters return; a predicate wait returns only with its condition true and the lock held. The barrier lets no thread through before the last of its count arrives, then lets all of them through, and any further arrival fails with an exception without blocking those already released.",
  ["schedules", "histories"], "for every number of threads and every interleaving of waits, notifications and spurious wake-ups",
  "Tests run one or two threads with sleeps; late or multiple waiters and wake-up order are not explored.",
  [LCK, LCKH], [("pshared_one_time_fence", LCK), ("pshared_barrier", LCK), ("pshared_cond::wait", LCK)])
IPC = "src/lib/ipc.cc"; IPCH = "src/include/cppev/ipc.h"
p("C23", "Named semaphores count exactly and have exactly one creator",
  "acquire(n) takes exactly n units and release(n) gives exactly n, whatever interruptions by signals occur; try_acquire takes one unit exactly when it returns true. Among openers of one name exactly the one whose exclusive creation succeeded reports itself creator, the handle is closed exactly once over any sequence of moves, unlink removes exactly that name, and any other failure is a system error.",
  ["inputs", "fault_sequences", "histories", "schedules"], "for every n >= 0, every result sequence of the semaphore calls, and every creation race",
  "The IPC tests are not run by the suite, and signals or races at a chosen point cannot be sampled.",
  [IPC, IPCH], [("semaphore", IPC)])
p("C24", "Shared memory is mapped once at the asked size, zeroed by its one creator only",
  "Opening a shared memory name maps exactly the requested number of bytes of that object; exactly the opener whose exclusive creation succeeded sizes and zeroes it and reports itself creator, and others never alter its content. Whatever fails, no descriptor or mapping is leaked, the mapping is released exactly once over any sequence of moves, unlink removes exactly that name, and failures are system errors.",
  ["inputs", "fault_sequences", "histories", "schedules"], "for every name, size and result sequence of the system calls, including creation races",
  "The IPC tests are not run by the suite; creation races and failures after open cannot be produced by tests.",
  [IPC, IPCH], [("shared_memory", IPC)])
U = "src/lib/utils.cc"
p("C25", "split and join are exact inverses around any separator",
  "split cuts the text at the leftmost non-overlapping occurrences of the separator and returns all pieces in order, including empty ones, so joining the pieces with the separator gives back the text and no piece contains the separator as found by that scan; an empty separator is rejected. join concatenates the pieces with exactly one separator between neighbours and works for any number of pieces, none included.",
  ["inputs"], "for every text, separator and list of pieces",
  "Tests use a few literal strings; self-overlapping separators, separators longer than the text and empty lists are a matter of all inputs.",
  [U], [("split/join", U)])
p("C26", "strip removes exactly the maximal runs of the pattern from the ends",
  "lstrip removes the pattern repeatedly from the left end as long as the remaining text begins with it, rstrip likewise from the right end, and strip does the left end and then the right end of what remains. The result is always the untouched rest of the text, nothing more and nothing less is removed, and an empty pattern is rejected.",
  ["inputs"], "for every text and every non-empty pattern of any lengths",
  "Tests use a few literals; texts exactly as long as the pattern or self-overlapping patterns are not sampled.",
  [U], [("do_strip", U)])
p("C27", "Integer and time helpers compute the mathematical result",
  "The greatest common divisor of positive numbers divides all of them and every common divisor divides it, the least common multiple is the smallest positive common multiple, for two numbers and for lists, as long as the result fits. Rounding a non-negative time point up gives the first whole second strictly after it, and sleeping until a stamp of a clock returns no earlier than that stamp, whatever interruptions occur, and at once when it has passed.",
  ["inputs"], "for all positive 64-bit inputs whose result fits, every time point and every stamp",
  "Tests use a handful of numbers.",
  [U, "src/include/cppev/utils.h"], [("greatest_common_divisor/least_common_multiple", U), ("ceil_time_point", "src/include/cppev/utils.h")])
p("C28", "Signal helpers act on exactly the given signals",
  "Blocking and unblocking change the mask of exactly the listed signals, the mask and pending queries report exactly the asked signal, waiting and suspending wait for exactly the listed signals and report which one arrived, and handler installation sets exactly the given disposition. Sending with signal number zero is rejected, process checks distinguish existing from missing processes, and every other failure is a system error.",
  ["inputs", "fault_sequences"], "for every signal number, list of signals and system-call result",
  "Tests use one or two signals and successful calls.",
  [U], [("signal helpers", U)])
SUB = "src/lib/subprocess.cc"
p("C29", "Subprocess handles wire, feed, drain and reap the child without leaks",
  "A started command runs with the given arguments and environment and its three standard streams connected to the handle; the pipe ends of the child's output are not kept open in the caller, no end of the pipes is inherited by any child except as its standard streams, and every descriptor is closed with the handle. poll and wait reap the child once and report its status, polling or waiting again after the child was reaped is harmless, all output produced before exit is available after wait, input reaches the child in order, and signals go to that child only; failures are exceptions in the caller and never end the calling process.",
  ["inputs", "fault_sequences", "histories"], "for every command, environment, input and result sequence of the system calls",
  "Tests run a few commands successfully and look at output once; descriptor leaks, failures and repeated waits are not observed.",
  [SUB, "src/include/cppev/subprocess.h"], [("subp_open", SUB), ("exec_cmd", SUB)])
p("C30", "Failures raise the documented exception with the right code",
  "A reported system failure is always a system error whose code is the explicit code given or else the errno of the failing call and whose text contains the given message; logic and runtime failures carry the given text unchanged. Formatting a time uses the given format and time, or the current time and default format when absent, and failures to obtain or format it are reported.",
  ["inputs", "fault_sequences"], "for every message, code, errno value, format and time",
  "Tests trigger one error and only check that something was thrown.",
  [U], [("throw_system_error/throw_logic_error/throw_runtime_error", U), ("time/timestamp", U)])

EVH = "src/include/cppev/event_loop.h"
p("C31", "Servers, clients and loops start all their parts, and stopping ends every one",
  "Stopping an event loop from any thread makes its endless run return - whether it is blocked, busy or not started yet - after at most the pass in progress, no further pass starts, and a loop nobody stopped keeps running. Every address a server is told to listen on gets its own listening socket of that family and address, served by exactly one loop; running a server or client starts each of its threads exactly once with broken-pipe signals ignored, and shutdown returns only after every one of them has been stopped, has ended and was joined once, leaving no descriptor open when it is destroyed.",
  ["schedules", "histories"], "for every interleaving of the stopping thread with the loop, every number of passes, addresses and threads",
  "The suite never shuts a server or client down; a lost wake-up or a data race on the stop flag needs a particular interleaving.",
  [EVH, TCP], [("loop_forever/stop_loop_forever", EVH), ("tcp_server::run/shutdown, tcp_client::run/shutdown, acceptor::listen", TCP)])
DL = "src/include/cppev/dynamic_loader.h"
p("C32", "A library is opened once, serves its symbols and is closed with its owner",
  "Constructing a loader opens exactly the named library once and destroying it closes exactly that library once; loading returns the address of the named symbol of that library and no other. A library that cannot be opened, a missing symbol and a symbol without a value are reported as runtime errors that tell the linker's reason, and nothing is closed that was not opened.",
  ["inputs", "fault_sequences"], "for every file and symbol name and every outcome of the dynamic linker",
  "Tests load one library successfully; failures and handle ownership are not observed.",
  [DL], [("dynamic_loader", DL)])

with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x, sch)
print(len(P))
