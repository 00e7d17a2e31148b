prop("C10", "A promise resolves once and its observers hear it once",
  "Of all attempts to resolve or reject one promise, by any number of threads and copies, exactly one takes effect; when all copies of an unresolved promise are gone the future is rejected. Every observer registered on a future, before or after the resolution, is called exactly once with that one outcome, observers registered by one thread are called in the defined order, and an observer that was removed in time is not called. Values and actions kept by a future are destroyed exactly once.",
  ["schedules", "histories"], "every interleaving of resolving, rejecting, dropping, observing and removing observers by several threads",
  "Needs races of resolution with registration; " + TESTS, ["base/actions/promise.h", "base/actions/promise.tcc"],
  [("state and list of observers under the future's lock", "base/actions/promise.tcc")], [("resolution/observer list", "outcome and who waits for it", "base/actions/promise.h")], ["calls of observers", "values seen", "live values"])
prop("C11", "Waiting for futures, cancellation and combinators do not lose or invent results",
  "Waiting on a future returns once it is resolved, with its value or by throwing its rejection, times out only after the timeout, and leaves nothing behind. A chained future is resolved by the result (or exception) of its continuation, a conjunction resolves after both parts with the values or the first rejection, a disjunction with whatever ends first; the same holds for futures without value; a canceled or auto-canceling future rejects its observers and lets none of them run after the destructor or cancel returned.",
  ["schedules", "histories"], "every interleaving of waiters, resolvers, cancellations and continuations; every timeout; continuations which throw",
  "Needs races of resolution with timeout or destruction; " + TESTS, ["base/actions/promise.h", "base/actions/promise.tcc"],
  [("temporary observer removed on timeout", "base/actions/promise.tcc"), ("auto cancel in the destructor", "base/actions/promise.h")], [], ["return values and exceptions", "checking heap and stacks"])
prop("C12", "A parallel executor runs every accepted action exactly once within its limits",
  "Each action passed to execute() which returned normally is run exactly once, in some thread of the executor, from its own copy which is destroyed afterwards; when execute() throws (timeout, thread cannot be started) the action is never run or touched again. At no moment more actions run than the limit of threads allows, threads over a lowered limit and idle threads leave without losing work, stopAll and the destructor return only when nothing runs, and execution works again after stopping. execute() never blocks for ever while a thread could be available.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of callers and worker threads, changes of limits, idle and waiting timeouts, failing thread creation, actions which throw",
  "The losses need a thread leaving the pool at the moment an action arrives; " + TESTS, ["base/actions/parallelExecutor.h", "base/actions/parallelExecutor.cpp", "base/actions/InfParallelExecutor.h", "base/actions/InfParallelExecutor.cpp"],
  [("action taken by exchange of curAction", "base/actions/parallelExecutor.cpp"), ("threads counted by curThreadCount", "base/actions/parallelExecutor.cpp")], [("curThreadCount/idleCount", "live and idle threads", "base/actions/parallelExecutor.h")], ["ledger of actions", "number of actions running", "thread counts"])
prop("C13", "Message queues and queue executors process each message once and in order",
  "Every message posted to a MsgQueue (MsgThread, SchedulerThread) or action given to a QueueExecutor is, exactly once, either run or rejected/destroyed (flush, cancel, stop), then finished and never touched again. Messages of one poster run in posting order, priority messages before others in last-in-first-out order, scheduled ones not before their time, one at a time in the worker thread. syncToQueue, flush, cancelMessage, finish, stopAll and join return only when what they promise is done, and always return.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of posters, control requests and the worker; queues never served; interrupted waits",
  "Needs a poster stopped between publishing a message and the next instruction; " + TESTS, ["base/actions/msgQueue.h", "base/actions/msgQueue.cpp", "mt/msgthread.h", "mt/msgthread.cpp", "base/actions/schedulerOld.h", "base/actions/schedulerOld.cpp", "base/actions/queueExecutor.h", "base/actions/queueExecutor.cpp"],
  [("lock-free stack of new messages reversed into the private queue", "base/actions/msgQueue.cpp"), ("semaphore kept at one permit", "base/actions/queueExecutor.cpp")], [("newMessages/curQueue", "queued messages", "base/actions/msgQueue.h")], ["ledger of messages", "queue length", "checking heap and stacks"])
prop("C14", "A resource pool respects its limit and loses no resource",
  "At no moment more resources exist than the limit allows, no resource is given to two holders at once, and a resource is destroyed only when nobody holds it. After all holders released theirs, the whole limit can be acquired again, whatever failed meanwhile (creation throws, waiting timed out, resource expired or broke). Threads waiting for a resource get one as soon as one is released, can be created, or the limit grows, and time out only after the timeout.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of holders, failing creations, expirations, timeouts and changes of the limit",
  "Needs simultaneous acquisitions; " + TESTS, ["base/containers/resourcePool.h", "base/containers/resourcePool.cpp", "base/memory/sharedResource.h"],
  [("free places counted by curLimit, resources handed to waiting slots", "base/containers/resourcePool.cpp")], [("curLimit/pool", "places for new resources and idle resources", "base/containers/resourcePool.h")], ["live resources", "holders of each resource"])
prop("C15", "Files, pipes, file locks and temporary files do what was asked or report it",
  "A sequential or random file returns exactly the bytes stored and stores exactly the bytes accepted, in order and at the given offset, however the system splits, interrupts or refuses single calls. End of data is reported only at the end, errors are reported as exceptions and never as success, modes of opening (create, truncate, append, exclusive, read, write) and what a stream claims about itself are honoured. Copies of a handle see one position, every descriptor is closed exactly once. Two holders never hold one file lock together, a lock with a timeout returns in time, temporary files have unique names, never reuse an existing file and disappear.",
  ["inputs", "fault_sequences", "schedules"], "every sequence of operations with short, interrupted and failing system calls at any point",
  "Tests meet a kernel which never splits or interrupts a call and never fails; " + TESTS, ["base/streams/fileio.h", "base/linux/fileio.cpp", "base/linux/fileio.h"],
  [("handles over descriptors", "base/linux/fileio.cpp")], [("file descriptors", "open files and their positions", "base/linux/fileio.cpp")], ["bytes read and files' content", "open descriptors", "exceptions thrown"])
prop("C16", "A file written with commitOnClose is replaced as a whole or not at all",
  "The target of a file opened with commitOnClose has at every moment either its whole previous content or the whole new content, whatever write, sync or close fails, whether the process is killed or the power is lost at any point. The target is replaced only if all that was written has been stored durably; when that fails the old file stays and the failure is reported to the caller who asks for it; no temporary file is left by a stream which was closed; a stream which is not committed changes nothing.",
  ["crash_points", "fault_sequences"], "a crash or failure at every system call",
  "Needs a crash or error between particular system calls; tests contain none of it", ["base/streams/fileio.h", "base/linux/fileio.cpp"],
  [("temporary file renamed in the destructor", "base/linux/fileio.cpp")], [], ["durable and visible content of the target", "files left in the folder"])
prop("C17", "Folders, copies and mapped files are complete and stay within what was named",
  "Listing a folder gives each entry once with its true type and attributes; recursive removal removes exactly the named tree, never what its links point to; an operation made through an entry of a folder affects only the file of that name, links and not their targets; copying and moving (also between file systems) give a target with the whole content or report an error, and a failed move keeps the source; creating a folder with parents succeeds also when others create them meanwhile. A mapped file shows the content of the file in every mapped window (at any offset) and stores what was written there.",
  ["inputs", "fault_sequences", "schedules"], "every tree and every sequence of short, interrupted or failing system calls",
  "Tests use a small healthy folder; " + TESTS, ["base/linux/fileio.cpp", "base/linux/fileio.h", "base/streams/fileio.h"],
  [("walk through folders", "base/linux/fileio.cpp")], [], ["tree of files before and after", "listed entries", "open descriptors and mappings"])
prop("C18", "Buffered streams neither lose, duplicate nor reorder bytes",
  "Between a reader or writer and the other side of a buffered stream every byte passes exactly once and in order, whatever mix of read, peek, fetch, lookup, putBack, discard, write, flush and closeOutput is used, however the other side splits its reads and writes and at whichever call it fails: a failed call can be repeated without losing or repeating data. Peeking consumes nothing; bytes put back are read next; input in the buffer survives writing. Before a read may wait for the other side, everything written before (in this and the connected buffer) was sent. After flush or closeOutput everything accepted was delivered, after closeOutput nothing is accepted. Memory files behave like files.",
  ["inputs", "fault_sequences", "schedules"], "every sequence of operations on both directions with every splitting and failure of the other side",
  "Needs particular positions of the shared buffer and failures in the middle; " + TESTS, ["base/streams/fileiobuff.h", "base/streams/fileiobuff.tcc", "base/streams/memfile.h", "base/streams/memfile.tcc", "base/streams/memfile.cpp"],
  [("one buffer shared by both directions", "base/streams/fileiobuff.tcc")], [("rdpos/rdend/wrbeg/wrpos", "unread input and unsent output", "base/streams/fileiobuff.h")], ["bytes delivered on both sides", "lengths reported by the buffer"])
prop("C19", "Network streams carry bytes reliably, keep their timeouts and report failures",
  "What one side of a network stream writes the other reads, every byte once and in order, until the end or an error, however the system splits, delays or interrupts single calls and signals arrive; the end of a stream is reported only when the other side closed it. A read, write, accept, connect or datagram operation which cannot proceed within its timeout reports a timeout, not earlier than the timeout and never as another error or success; a peer which closes, resets or refuses is reported as an exception, never kills the process. Connecting tries every address of the host. Datagrams are delivered whole, to the one which waits for them, with the address of their true sender, also when many threads share the source. An address keeps its host and port through its text and raw form, and addresses have one order. Every socket is closed exactly once.",
  ["inputs", "fault_sequences", "schedules"], "every sequence of operations on both sides with delays, resets, refused and interrupted calls, lost and reordered datagrams",
  "Tests use no network at all", ["base/streams/netio.h", "base/streams/netio_ifc.h", "base/linux/netStream.cpp", "base/linux/netStream.h", "base/linux/netAddress.cpp"],
  [("non-blocking descriptors with poll", "base/linux/netStream.cpp")], [("sockets", "connections and what is on the way", "base/linux/netStream.h")], ["bytes read on each side", "exceptions and their time", "open descriptors"])
prop("C20", "Waiting for many resources reports each event once to its owner",
  "A resource registered in a waiting object or an event listener is reported when (and only when) an awaited event happened or its timeout expired, exactly once for one registration, with its own event and to its own observer, however many resources share a descriptor or a thread. A resource or observer which was removed (confirmed) is not reported any more and may be destroyed. Completion of every request is confirmed exactly once, also when the listener is being destroyed. Waking up by another thread is never lost. A wait with a timeout returns in time, one without returns when something happens; failures of the system are reported and nothing is left open.",
  ["schedules", "fault_sequences", "histories"], "every order of registering, removing, events, timeouts and wake-ups from several threads, with failing and interrupted calls",
  "Needs events and requests in the same moment; tests use no network", ["base/streams/netio.h", "base/streams/netio_ifc.h", "base/linux/networkEventListener.cpp", "base/linux/epollSelect.cpp", "base/linux/linuxFdSelect.cpp", "base/linux/linuxNetWaitingObj.cpp", "base/containers/sort.h"],
  [("one shot monitoring with EPOLLONESHOT", "base/linux/epollSelect.cpp"), ("requests posted to the thread of the listener", "base/linux/networkEventListener.cpp")], [("listeners", "observers of a descriptor", "base/linux/networkEventListener.h"), ("timeoutMap", "heap of timeouts", "base/linux/epollSelect.h")], ["events delivered to observers", "confirmations of requests", "open descriptors"])
prop("C21", "TCP server serves every connection by one handler at a time until it is stopped",
  "Every connection accepted by a TCP server is announced once and its context is released exactly once. Handlers of one connection never overlap; a handler is called only for the event the previous one asked for (data, room for writing, timeout not sooner than it was set, wake-up with its reason), and a wake-up sent at any moment is never lost nor delivered twice. Not more handlers run at once than the limit of threads. Failures of single connections, handlers or of accepting do not stop the server from serving the others. When stop() returns no handler runs and none is called later, all connections and ports are closed, and the server may be started again. Starting which fails leaves the server stopped and nothing open.",
  ["schedules", "fault_sequences", "histories"], "every order of connecting, sending, disconnecting, waking up and stopping, with failing and interrupted calls, throwing and rejecting handlers",
  "Requires stop, disconnect or wake-up in the same moment as another event of the connection; tests never start a server", ["base/framework/TCPServer.h", "base/framework/ITCPServer.h", "base/framework/TCPServer.cpp"],
  [("state of sleeping and recorded wake-up changed by compare and exchange", "base/framework/TCPServer.h"), ("connections removed from the list under the lock of the server", "base/framework/TCPServer.cpp")], [("connList, otherPorts, shutdown flag", "live connections and ports", "base/framework/TCPServer.h")], ["calls of handlers", "answers received by clients", "open descriptors"])
prop("C22", "Event log replays exactly what was stored, and replicas equal the original",
  "Every event (and every cell update) whose sending returned is delivered by each later rescan exactly once, in the order of storing, with its type, content (filled up to whole blocks), time and offset, and is readable at that offset; listeners present or synchronized at any moment receive history and new events without a gap or repetition. This holds for storing from several threads, rotated logs, reopening with and without rescan, clock jumping in either direction, and after the process was killed or ended by a failed write; an event which was not acknowledged is replayed whole or not at all (or reported as an error when it was torn by a short write). After a power failure acknowledged events are still there. A replica connected at any time holds the same events, cells and times as the original, and may take over.",
  ["histories", "fault_sequences", "crash_points", "schedules"], "every history of sessions, transactions, cells, rotations, clock jumps and replications, every crash point and failure of a write",
  "No test of the repository touches the event log", ["utils/eventdb.h", "utils/eventdb.cpp"],
  [("header with running checksum, records in blocks", "utils/eventdb.cpp"), ("listeners called under the lock of the transaction", "utils/eventdb.cpp")], [("writeState, writePos", "end of the log", "utils/eventdb.h"), ("cellMap", "frames of cells", "utils/eventdb.h")], ["events delivered to listeners", "content of files", "records read back"])
prop("C23", "HTTP client frames messages exactly and reports each early end",
  "Whatever server sends and however the network splits it, reading of a response gives exactly its status, headers (names regardless of case) and body, for a body with a length, sent in chunks (with extensions and trailers) or ended by closing the connection, consuming nothing of the next response; reset() succeeds exactly when the connection stands at the next response. A response cut at any byte, or a connection reset, is reported by an exception or by a failed reset, never as a complete response, and reading always ends. A request arrives at the server well formed, once, with the headers and the body given by the user, framed by exactly one of length and chunks, in pieces of any size; a connection which fails is reported to the caller and never terminates the process, neither when the request is destroyed.",
  ["inputs", "fault_sequences"], "every response cut or reset at any byte, every splitting of reads and writes, every mixture of reading, peeking, skipping and resetting",
  "The only test talks to a server in the internet; it cannot run", ["base/streams/httpc.h", "base/streams/httpc.tcc"],
  [("state machine of chunks and length", "base/streams/httpc.tcc"), ("headers sent before the first byte of the body", "base/streams/httpc.tcc")], [("remainLength, chunked, eof", "position inside of the response", "base/streams/httpc.h")], ["status, headers and bytes read", "bytes received by the server", "exceptions"])
prop("C24", "Log writes each enabled message whole, once, in order, and never hurts program",
  "Each message whose type and level is enabled is written exactly once as one whole line containing its text, thread and level, messages of one thread in order, whatever other threads log, whatever file is rotated meanwhile (each message is either in the old or in the new file); disabled messages are not written. A registered live listener gets every message it wants from the moment its registration returned until its removal, none afterwards, and may be destroyed then; a failing listener or disk neither stops the program nor spoils other messages. Redirected logging is limited to its thread and scope. Progress reports seen by a monitor are within limits, every change of position, range or shown state is reported to it, levels match the nesting and the state of destroyed scopes disappears.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of logging, rotating, changing levels and (un)registering listeners, with failing, short and interrupted writes",
  "Needs other threads in the middle of a message, and failing disk; " + TESTS, ["base/debug/dbglog.h", "base/debug/dbglog.cpp", "base/debug/stdlogoutput.h", "base/debug/stdlogoutput.cpp", "base/debug/livelog.h", "base/debug/livelog.cpp", "base/debug/progress.h", "base/debug/progress.cpp"],
  [("lines composed in the formatter of the thread, written under a lock", "base/debug/stdlogoutput.cpp"), ("list of listeners", "base/debug/livelog.cpp")], [("logFilename, output stream", "current log file", "base/debug/stdlogoutput.h")], ["lines of the log files", "messages received by listeners"])
prop("C25", "Processes get exactly what they were given and their end is always reported",
  "Process::start either starts the program with exactly the given arguments, environment (own or inherited), working directory and redirected streams - no other descriptor of the parent, whichever standard descriptors the parent has closed - or throws, leaving no process, zombie or descriptor behind. Data written to the streams of processes and through chains of them come whole and each side sees the end. join() returns the exit code (negative number of the signal) once the process ended; join with a time limit reports its end although SIGCHLD is lost, taken by another thread, ignored or interrupted, and gives up only after the limit; the gate opens when process was joined. stop() ends the process from whichever thread it was started, force always. No process stays unwaited.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of threads starting, feeding and waiting for processes, lost signals, failing fork, exec, descriptors and interrupted waiting",
  "Nothing tests processes; lost signals and failing fork need a simulated kernel", ["mt/process.h", "mt/linux/process.cpp", "base/linux/fileio.cpp", "base/linux/main.cpp"],
  [("vfork with status pipe closed by exec", "mt/linux/process.cpp"), ("one thread waits for SIGCHLD, others for it", "mt/linux/process.cpp")], [("pid, exitCode, finishGate", "state of the process", "mt/process.h")], ["what the program received", "exit codes", "processes, zombies and descriptors left"])
prop("C26", "At most one instance runs; each command is served once and answered its sender",
  "At any moment at most one running process owns the program instance of one name; create() by another is refused as already running and damages nothing, while an instance left by a killed process, or a file killed in the middle of its creation, is taken over. A request sent by any process is seen by the owner whole, at most once, and the reply it sends (its exact bytes) goes to that request and to no other, also when clients are killed or give up at any moment, signals interrupt waiting or the owner is busy: a client which gave up gets no later reply and disturbs no other, and a client never waits longer than its limit nor gives up earlier. An instance which ends releases its waiting clients. Cancelling of waiting is never lost. A service application executes each command once with its arguments, sends result and output back, stops on request from any thread, and stop or restart ends it even if it hangs.",
  ["schedules", "fault_sequences", "crash_points"], "every interleaving of processes creating, requesting, serving, cancelling and ending, each killed at any step, with failing and interrupted calls",
  "Needs several processes at exact positions and killed ones; no test uses instances", ["base/framework/proginstance.h", "base/linux/proginstance.cpp", "base/framework/serviceapp.h", "base/framework/serviceapp.cpp"],
  [("mailbox in shared file guarded by a robust process shared mutex and semaphores", "base/linux/proginstance.cpp")], [("ProgInstanceBuffer", "mailbox and its owner", "base/linux/proginstance.cpp")], ["requests seen by the owner", "replies received", "exceptions and their time", "files left"])
prop("C27", "Fibers pass control exactly where it was sent and always unwind",
  "Among fibers of a thread control passes exactly to the fiber which was started or woken, sleep() returns it to the fiber which woke the sleeping one last (or to the master if that one ended) and returns the reason of the last wake-up, the end of a fiber returns to the master; waking up a passive fiber does nothing. The function of a fiber runs once for each start. stop() and the destructor unwind a running fiber wherever it waits (in sleep, or inside of waking or starting another one), destroying its local objects exactly once, and free its memory. An exception which ends a fiber is reported to the master exactly once. Fibers of different threads do not influence each other, starting which fails (no memory) leaves the fiber passive.",
  ["schedules", "histories", "fault_sequences"], "every sequence of start, wake-up, sleep, stop, exception and destruction among several fibers and threads, with failing allocations",
  "No test starts a fiber", ["mt/fiber.h", "mt/linux/fiber.cpp"],
  [("contexts switched by swapcontext, current fiber in a thread variable", "mt/linux/fiber.cpp")], [("ctx, caller, master", "state of the fiber", "mt/fiber.h")], ["which fiber runs", "reasons and exceptions delivered", "destroyed objects"])
prop("C28", "A mail is reported sent exactly when the server accepted it, unchanged",
  "SendMail delivers to the mail server exactly the given sender, receivers and text (line ends normalized to CRLF, one empty line end added at the end, a line with single dot possibly replaced by a space), whatever the text contains - lines beginning with dots, bare CR or LF - and however the network splits the conversation. send() returns only after the server accepted the message, which then was accepted exactly once; a refusal of any command, an early end of the connection at any byte, a reset or a silent server is reported by SendMailError (never by another exception, a hang or a crash), and the refused message is not accepted. After a refusal the connection is in step: the same message may be sent again and further messages sent over the same connection are reported truly.",
  ["inputs", "fault_sequences"], "every text, every refused command and every cut of the conversation, several mails over one connection",
  "No test sends mails", ["utils/sendmail.h", "utils/sendmail.cpp"],
  [("line oriented conversation over a buffered network stream", "utils/sendmail.cpp")], [("message, receivers", "prepared mail", "utils/sendmail.h")], ["mails accepted by the server", "result of send()"])
prop("C29", "Containers behave as their abstract type and survive running out of memory",
  "AutoArray (over the heap, a small or a static buffer), Deque, Queue, Stack, LinkedList, PriorityQueue, Map, MultiMap, Set and MultiSet hold after every sequence of operations exactly what the sequence defines: the right items, in the right order (insertion order, or sorted by the comparator), with right counts, found by every search, bound and iterator (also backwards and after changes the iterator is documented to survive). Each stored item is constructed and destroyed exactly once, an item is never used outside of its life, all memory is returned. An operation which runs out of memory (or of its static space, or whose argument is out of range) reports it and leaves the container valid: an insertion either happened or not, no other item is touched. ClusterAlloc never gives the same memory twice.",
  ["histories", "fault_sequences"], "every sequence of operations with allocations failing at any point",
  "Tests use few containers and never run out of memory", ["base/containers/autoArray.h", "base/containers/autoArray.tcc", "base/containers/arrayt.h", "base/containers/deque.h", "base/containers/deque.tcc", "base/containers/linkedList.h", "base/containers/map.h", "base/containers/map.tcc", "base/containers/set.h", "base/containers/set.tcc", "base/containers/avltree.h", "base/containers/avltree.tcc", "base/containers/avltreenode.cpp", "base/containers/priorityQueue.h", "base/containers/queue.h", "base/containers/stack.h", "base/memory/smallAlloc.h", "base/memory/staticAlloc.h", "base/memory/clusterAlloc.cpp", "base/memory/clusterAlloc.h", "base/objmanip.h"],
  [("items moved to a bigger block, the old one kept until it succeeds", "base/containers/autoArray.tcc"), ("balanced tree shared by maps and sets", "base/containers/avltree.tcc")], [("items of the container", "content", "base/containers/autoArray.h")], ["content through every way of access", "living items", "blocks of memory left"])
prop("C30", "Strings keep their value whoever shares them; texts survive UTF-8",
  "A string keeps its characters (and the terminating zero) whatever is done to other strings sharing its memory: writing to one is never seen through another. Every expression over strings (sum, part, head, tail, crop, reverse, repeat, combinations of them), every search, comparison, split and trim gives what it means for sequences of characters, for every position and count including those beyond the end; the same goes for expressions over arrays and for their enumeration (also stopped early), iterators moving in both directions, and rendering to another array or stream; also when the memory runs out during the operation (the string then keeps its previous value). A text converted to UTF-8 and back is the same text, the bytes are exactly its standard (shortest) encoding and their count is as reported. No memory stays allocated.",
  ["histories", "fault_sequences", "inputs"], "every sequence of operations over shared strings with allocations failing at any point, and every text",
  "Tests convert several fixed texts; " + TESTS, ["base/containers/string.h", "base/containers/string.tcc", "base/containers/string.cpp", "base/containers/stringBase.h", "base/containers/stringBase.cpp", "base/containers/constStr.h", "base/containers/arrayExpr.h", "base/containers/arrayt.h", "base/containers/arrayt.tcc", "base/containers/flatArray.h", "base/streams/utf.cpp", "base/streams/utf.h", "base/streams/utf.tcc"],
  [("counted buffers copied when they are written", "base/containers/stringBase.h"), ("lazily evaluated expressions", "base/containers/arrayExpr.h")], [("StringBufferHdr", "shared characters", "base/containers/stringBase.h")], ["characters of every string after every operation", "blocks of memory left"])
prop("C31", "Encoders and decoders give exact data whatever pieces it comes in",
  "Base16, base32, base64 and base85 (Z85), the URL encoder and the LZW and LZWp compressors turn every sequence of bytes into its standard text (or compressed form), and the decoders give back exactly the original bytes, whether the data are converted at once, written or read item by item or in blocks of any size, through reading or writing iterators or directly by the rules of the converter (write when it needs items, read when it has items, flush at the end). The result does not depend on the pieces. A converter which finished one stream works for the next one the same way. Decoders of base16 and base32 accept letters of both cases unless asked to be case sensitive.",
  ["inputs", "histories"], "every data, every splitting to pieces and every sequence of streams over one converter",
  "Tests convert one or two fixed texts at once", ["base/iter/iterConv.h", "base/containers/convertString.h", "utils/base16.cpp", "utils/base16.h", "utils/base32.cpp", "utils/base32.h", "utils/base64.cpp", "utils/base64.h", "utils/base85.cpp", "utils/base85.h", "utils/urlencode.cpp", "utils/urlencode.h", "utils/lzw.cpp", "utils/lzw.h", "utils/lzw.tcc"],
  [("hasItems, needItems and eolb guide feeding and reading", "base/iter/iterConv.h")], [("readpos, wrpos, accumulators, dictionary", "state between pieces", "utils/lzw.h")], ["encoded text compared to a reference encoder", "decoded bytes"])
prop("C32", "JSON text and values survive every way of parsing, writing and changing them",
  "Every JSON text, with any allowed escapes and white space, parsed through any of the interfaces (from a string, an iterator, a stream of characters, a stream which reads in short pieces), gives the same value, and the value written (plain, escaped to ASCII with surrogate pairs, through the stream serializer) and parsed again is the same value: 64-bit integers exactly, floating point numbers to the printed six decimals, texts to the last character. The stream parser calls back for every value in the order of the text, a container whose monitoring was refused mutes only itself. A text cut short is refused (except a number, which has no end mark), a damaged text is refused or read as a value but never damages memory, and a stream error or lack of memory is reported and nothing leaks. Objects and arrays behave as a map and a list: adding keeps an existing key, setting replaces it, erased items are gone, iterators see a snapshot, copies (deep or shallow) do not change with the original beyond their depth, equality is symmetric and by value, paths lead to the item they name. Values shared by many threads, and the shared constants, live until the last user releases them.",
  ["inputs", "histories", "fault_sequences", "schedules"], "every value, text, way of parsing and writing, sequence of operations, place of a failing read, write or allocation, and every schedule of threads sharing values",
  "Tests parse and write a few fixed texts", ["utils/json/json.h", "utils/json/json.cpp", "utils/json/jsonimpl.h", "utils/json/jsondefs.h", "utils/json/jsonparser.h", "utils/json/jsonparser.tcc", "utils/json/jsonserializer.h", "utils/json/jsonserializer.tcc", "utils/json/jsonbuilder.h", "utils/json/jsonbuilder.cpp"],
  [("parser of texts", "utils/json/jsonparser.tcc"), ("serializer with its own stack of containers", "utils/json/jsonserializer.tcc")], [("Object_t, Array_t", "members and items", "utils/json/jsonimpl.h")], ["values compared with a model", "text compared with a reference reader", "blocks of memory left"])
prop("C33", "Configuration files, URL queries and command lines are read exactly as written",
  "Every configuration text (comments, blank lines, any line ends, white space around names and values, quoted values with escapes and folded lines, missing end of the last line) gives exactly the values written under each section and name, in their order, whatever the case of the names is, through every way of reading: by name and index, under a prefix, by enumeration of a section and a prefix, or line by line. Numbers and booleans are read exactly or refused, a missing required value is reported. Included files are found relatively to the file which includes them, their values join in place. A broken line is reported, or only that line is skipped when errors are ignored; an unreadable file is reported and no descriptor stays open. A URL query gives the path and every item in order with decoded value, empty items are skipped. A command line gives each argument once: short switches one by one, long switches, texts, rest of the argument, numbers or a refusal.",
  ["inputs", "histories", "fault_sequences"], "every text, order of questions, and failing or short read of the files",
  "No test reads a configuration, a query or a command line", ["utils/configParser.h", "utils/configParser.tcc", "utils/configParser.cpp", "utils/queryParser.h", "utils/queryParser.cpp", "base/framework/cmdLineIterator.h", "base/framework/cmdLineIterator.cpp"],
  [("parser of lines with one buffer", "utils/configParser.tcc"), ("map ordered regardless of the case", "utils/configParser.h"), ("double buffered item", "utils/queryParser.cpp")], [("fields", "values by section and name", "utils/configParser.h"), ("argPos, charPos", "position in the arguments", "base/framework/cmdLineIterator.h")], ["values compared with what was written", "open descriptors"])
