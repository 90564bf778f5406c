"""Texts of the properties; kvc/gen.py writes properties.jsonl and MANIFEST.json from them."""
T = {}
def prop(id, title, statement, over, qtext, why, files, mech, note, state=None, observe=None):
    T[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, state=state, observe=observe)
NA = {}
def na(id, title, statement, over, qtext, why, files, mech, reason):
    T[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=None, state=None, observe=None)
    NA[id] = reason

prop('C01', 'The byte buffer is an exact, memory-safe FIFO of bytes',
     'A byte buffer always shows exactly the bytes that were prepended and appended and not yet consumed, in order, whatever mix of append, prepend, reserve, shrink, commit, consume, retrieve and swap produced it. '
     'Reserving room for n bytes makes n bytes writable, shrinking never drops readable bytes nor the 8-byte header space and ends at readable + 8 + requested room or less, and a drained buffer offers its header space again. '
     'No operation used within its documented precondition reads or writes outside the storage.',
     ['inputs', 'histories'], 'every state with begin <= end <= capacity (so every history), every length and content',
     'tests use a handful of lengths and never shrink a partly consumed buffer or append after a prepend; the state space of positions is unbounded',
     ['kanon/buffer/buffer.h', 'kanon/buffer/buffer.cc', 'kanon/algo/reserved_array.h'],
     [('append/prepend/advance/retrieve', 'kanon/buffer/buffer.h'), ('ReserveWriteSpace, Shrink', 'kanon/buffer/buffer.cc'), ('Grow/Shrink of the storage', 'kanon/algo/reserved_array.h')],
     'Every mutator is verified against a contract over the byte view from an arbitrary state satisfying the class invariant; real IR of the header and .cc file, storage included.')
prop('C02', 'Fixed-width integers travel through the buffer in network byte order',
     'Appending or prepending an 8, 16, 32 or 64 bit integer puts exactly its big-endian bytes after or before the readable bytes, and peeking or reading an integer yields the big-endian value of the first readable bytes. '
     'Peeking consumes nothing and reading consumes exactly the width, so what one peer writes is what the other reads.',
     ['inputs', 'histories'], 'every integer of every width, every buffer state',
     'tests try a few values; the byte order must hold for every value and at every buffer position',
     ['kanon/buffer/buffer.h', 'kanon/util/endian_api.h'],
     [('Append16/32/64, Prepend8..64', 'kanon/buffer/buffer.h'), ('Read/GetReadBegin8..64', 'kanon/buffer/buffer.h'), ('byte order conversion', 'kanon/util/endian_api.h')],
     'Postconditions state every byte; discharged for all 2^64 values and all buffer states.')
prop('C03', 'Text views search, compare and slice bytes exactly',
     'Every search of a text view (character, substring, character set or its complement, forward or backward, from any position) returns the first or last position that satisfies it, or npos exactly when none does, and always terminates. '
     'Comparisons order unsigned bytes lexicographically (case-insensitively where asked), equality means equal length and bytes, and slices, prefix/suffix tests, trimming and line-end searches denote exactly the bytes of the underlying text. split gives the pieces between the occurrences of the splitter, in order (the whole text if it does not occur or is empty). '
     'No operation used within its precondition reads outside the viewed text.',
     ['inputs'], 'every text and pattern of every length and content including NUL bytes and empty views, every start position',
     'tests search a few printable strings; first/last-ness and termination are universally quantified statements over contents and positions',
     ['kanon/string/string_view.h', 'kanon/string/string_view.cc', 'kanon/buffer/buffer.h', 'kanon/linux/core/string/strcasecmp.cc'],
     [('find*/rfind*', 'kanon/string/string_view.h'), ('compare, operators', 'kanon/string/string_view.h'), ('substr, split, starts/ends_with', 'kanon/string/string_view.h'), ('FindCrLf/FindLf', 'kanon/buffer/buffer.h')],
     'Search results are characterised by quantified postconditions with synthesized inductive loop invariants; memcmp/memchr/strncasecmp are trusted by contract. split, ToLowerString and ToUpperString are bounded (short texts).')
prop('C10', 'The memory pool hands out each chunk once and keeps what is in use',
     'FixedChunkMemoryPool hands out chunks that are aligned for pointers, as large as was asked for, and distinct from every chunk in use; nothing the pool does changes the bytes of a chunk in use. A freed chunk is handed out again before a new block is allocated, and a block serves as many chunks as was configured. '
     'Shrink frees exactly the blocks with no chunk in use, after which the pool works on; the counts of blocks, free chunks and bytes are those of the blocks, and the destructor frees every block once. Size 0 gives nothing, Free(nullptr) does nothing. '
     'ObjectMemoryPool and ObjectPoolAllocator serve objects of their type from the pool, make them from the arguments, destroy them once, and refuse arrays.',
     ['inputs', 'histories'], 'pools of up to three chunks a block, every sequence of up to three allocations, frees in every order, a shrink and two more allocations, objects of 1, 8, 12 and 24 bytes, arbitrary contents',
     'tests allocate and free in order and never shrink; a chunk handed out twice or lost shows only after particular orders of frees and shrinks',
     ['kanon/mem/fixed_chunk_memory_pool.cc', 'kanon/mem/fixed_chunk_memory_pool.h', 'kanon/mem/object_memory_pool.h', 'kanon/mem/object_pool_allocator.h'],
     [('Malloc, Free, Shrink, AllocBlock, IsBlockFree, GetUsage, GetFreeChunkNum', 'kanon/mem/fixed_chunk_memory_pool.cc'), ('allocate, deallocate, construct, destroy', 'kanon/mem/object_pool_allocator.h')],
     'Bounded (not counted as proved): the real functions are executed symbolically from every pool that a history within the bound reaches, all loops unrolled to their end, every memory access an obligation.')
prop('C11', 'Holders give back exactly the value that was put in',
     'Any and UniqueAny give back, by AnyCast of its type, exactly the value that was put in; a safe cast to another type or of an empty holder gives null. Copies of an Any are independent, moves leave the source empty, swap exchanges, self-assignment changes nothing, and every held value is destroyed exactly once. '
     'RawAny refers to the object without owning it. An optional has a value exactly when it was given one that was not invalidated, and it is that value, through copies, moves and conversions. '
     'A KeyUniquePtr made as a key never deletes its object, other owning helpers delete it once, and a down cast gives the derived object.',
     ['inputs', 'histories'], 'every value of the sample types; each operation from empty and full holders',
     'tests put an int and a string in; ownership after assignment, self-assignment, moves and casts of empty holders is not observed by them',
     ['kanon/util/any.h', 'kanon/util/unique_any.h', 'kanon/util/raw_any.h', 'kanon/util/optional.h', 'kanon/util/ptr.h'],
     [('Any, AnyCast', 'kanon/util/any.h'), ('UniqueAny', 'kanon/util/unique_any.h'), ('RawAny', 'kanon/util/raw_any.h'), ('optional', 'kanon/util/optional.h'), ('MakeUniquePtrAsKey, down_pointer_cast', 'kanon/util/ptr.h')],
     'The code has no loops, so every obligation is decided for all values; the types held are samples (a copyable, a move-only and plain numbers), virtual calls and type_info are executed.')
prop('C12', 'A connection sends every accepted byte once, in order, and never stalls',
     'Whatever mix of Send calls (bytes, text, byte buffer, chunk list; from the loop thread or another thread), write events and kernel answers (short writes, EAGAIN) occurs, the bytes given to the kernel are exactly the accepted bytes in order, '
     'and whatever was not yet written stays queued with the write interest registered, until the socket itself fails. '
     'The write-complete callback runs exactly when the queue was drained, the high-water-mark callback exactly when the queued bytes rise to the mark, and the write side is shut down only after the last accepted byte was written. '
     'A connection that is not established (or was reported down) takes no message, and from another thread Send touches nothing but the loop queue and a private copy.',
     ['inputs', 'histories', 'schedules'], 'every queue state, every message length, every sequence of kernel answers, both trigger modes',
     'tests use an echo over loopback whose socket buffer never fills; short writes, EAGAIN at each position and shutdown in between need a specific kernel answer',
     ['kanon/net/connection/connection_base.cc', 'kanon/net/connection/connection_base.h', 'kanon/linux/net/connection/connection_base.inl', 'kanon/net/tcp_connection.h', 'kanon/linux/net/channel.cc'],
     [('SendInLoop*', 'kanon/linux/net/connection/connection_base.inl'), ('HandleLtWrite/HandleEtWrite, Send, ShutdownWrite', 'kanon/net/connection/connection_base.cc')],
     'One inductive step per public operation and event from an arbitrary state satisfying the stream invariant; the real connection, channel, socket and buffer code, with write(2), the loop and the chunk list as contracts.')
prop('C13', 'A connection is reported up once, then down once, with messages only in between',
     'The connection callback reports each connection up exactly once and down exactly once afterwards, however it ends (peer close, error, hang-up, ForceClose from any thread, destruction of the owner) and whatever else happens meanwhile; messages are delivered only in between. '
     'The owner is told exactly once to drop it, it then waits for no event, stays down, leaves the poller exactly once, and its descriptor is closed exactly once, when the last reference is dropped. '
     'Work queued from other threads keeps the connection alive until it ran.',
     ['histories', 'schedules', 'inputs'], 'every state of the connection, every combination of returned events, every result of read, calls from either thread in any order',
     'tests open and close a few connections; the order of queued work, events and user actions in callbacks is unbounded',
     ['kanon/net/connection/connection_base.cc', 'kanon/net/connection/connection_base.h', 'kanon/net/connection/tcp_connection.cc', 'kanon/linux/net/channel.cc', 'kanon/net/socket.cc'],
     [('HandleRead/HandleClose/HandleError, ConnectionEstablished/Destroyed', 'kanon/net/connection/connection_base.cc'), ('HandleEvents', 'kanon/linux/net/channel.cc')],
     'One inductive step per event or operation from an arbitrary state; ghost counters count the reports. Reading, the loop and the poller are contracts.')
prop('C14', 'A channel dispatches returned events to the right handlers and only them',
     'For every combination of returned events, a channel runs its handlers in a fixed order (close on hang-up without input, error, read on input or peer half-close, write on output), each at most once, and runs none that the events do not call for. '
     'A handler that is not set is skipped; a channel tied to an owner runs nothing once the owner is gone and keeps the owner alive until the last handler returned. '
     'Enabling or disabling interest changes exactly the named interest, leaves the others alone and tells the poller; removing tells it exactly once.',
     ['inputs', 'histories'], 'every value of the returned-event word, every set of handlers, every interest word, tied or not',
     'tests see only the event words a loopback socket produces; the pairs (event word, handler set, owner state) are not enumerable in a test',
     ['kanon/linux/net/channel.cc', 'kanon/net/channel.h'],
     [('HandleEvents, HandleEventsWithGuard', 'kanon/linux/net/channel.cc'), ('Enable/Disable, Update, Remove', 'kanon/net/channel.h')],
     'Ghost trace of handler calls; the real channel code, std::function and the tie included.')
prop('C15', 'The pollers watch exactly the interest of each channel and report it once',
     'After any sequence of registering, changing and removing channels, the kernel (epoll) or the poll array (poll) watches for each registered channel exactly its current interest, watches nothing of a removed or interest-less channel, and such a channel can be registered or enabled again. '
     'Every poll waits once, for the given time, and reports each channel that has returned events once with exactly the events returned for it, and nothing else; an interrupted or failed wait reports nothing.',
     ['histories', 'inputs'], 'every table of registered channels, every interest, every result of the wait',
     'tests register two or three channels in a fixed order; the table grows, shrinks and swaps slots over an unbounded history',
     ['kanon/linux/net/poller.cc', 'kanon/linux/net/epoller.cc', 'kanon/net/poll/poller.h', 'kanon/net/poll/epoller.h', 'kanon/net/channel.h'],
     [('Epoller::Poll/UpdateChannel/RemoveChannel', 'kanon/linux/net/epoller.cc'), ('Poller::Poll/UpdateChannel/RemoveChannel', 'kanon/linux/net/poller.cc')],
     'Class invariants relating channel states, the poll array and a ghost kernel table, preserved by each operation from an arbitrary state with any number of channels; the reporting loops are proved with inferred inductive invariants.')
prop('C16', 'Work handed to an event loop runs once, in order, in the loop thread',
     'Every functor handed to a loop with QueueToLoop or RunInLoop, from any thread, runs exactly once in the loop thread, in the order handed in; RunInLoop in the loop thread runs it at once. '
     'The loop never waits for events while a functor queued by another thread or by another functor is pending. Each round it handles every channel the poller reported exactly once and no other. '
     'Quit, from any thread, ends the loop after the current round and after every functor queued before it has run; loop functions called in a foreign thread abort; the wake-up descriptor is created once and closed once.',
     ['schedules', 'histories'], 'any number of queued functors and reported channels, work queued by other threads at every lock operation, wait and callback',
     'tests queue a few functors from one or two threads; a lost wake-up needs a particular interleaving of queueing, draining and waiting',
     ['kanon/net/event_loop.cc', 'kanon/net/event_loop.h'],
     [('StartLoop, QueueToLoop, RunInLoop, CallFunctors, Quit, Wakeup', 'kanon/net/event_loop.cc'), ('EvRead', 'kanon/net/event_loop.cc')],
     'The lock is a contract: whenever it is taken other threads may have queued any number of functors; an invariant relates the queue, the wake-up descriptor and the calling flag, and is checked at every release and before every wait.')
prop('C17', 'A timer fires once per due time, never early, never after it was cancelled',
     'A timer added from any thread is called in the loop thread, not before its expiration, and in the first round at or after it; the timers of a round are called in order of expiration. A one-shot timer is called once, a repeating one again after each interval. '
     'A timer that is cancelled - while it waits, from its own callback, from the callback of another timer due at the same time, or from another thread - is never called afterwards; cancelling a timer that is over or an empty id changes nothing. '
     'RunAt, RunAfter, RunAfterMs, RunAfterUs and RunEvery of the loop ask for the time and interval they name and give back the id that CancelTimer takes. Every timer is deleted exactly once, none is touched after that, and the timerfd is always armed for the first waiting timer (at least 100 microseconds ahead) and closed once.',
     ['histories', 'schedules', 'inputs'], 'any number of timers with any expirations and intervals, any cancellations in callbacks',
     'tests run a handful of timers in real time; ties, cancellation between two due timers and reuse of deleted timers need particular histories',
     ['kanon/linux/net/timer/timer_queue.cc', 'kanon/linux/net/timer/timer_queue.h', 'kanon/net/timer/timer.h', 'kanon/net/timer/timer_id.h', 'kanon/net/timer/itimer_queue_platform.h', 'kanon/util/time_stamp.h', 'kanon/net/event_loop.h', 'kanon/net/event_loop.cc'],
     [('AddTimer, CancelTimer, ProcessAllExpiredTimers, GetExpiredTimers, ResetTimers, Emplace', 'kanon/linux/net/timer/timer_queue.cc'), ('TimerEntryCompare', 'kanon/net/timer/itimer_queue_platform.h'), ('RunAt, RunAfter*, RunEvery, CancelTimer', 'kanon/net/event_loop.h, kanon/net/event_loop.cc')],
     'Each operation from an arbitrary queue of any size; everything is claimed about an arbitrary timer J. The real comparator orders the ghost set; the four loops are proved with contract predicates at the loop position.')
prop('C18', 'A client connects, retries with capped back-off, stops and reconnects',
     'A connect attempt never blocks; an established connection is handed over and reported up exactly once. A refused, unreachable, timed-out or self-connected attempt closes its descriptor and is retried exactly once after 0.5 s, doubling up to 30 s and never more; other errors close the descriptor. '
     'After Stop, in any state and from any thread, there is no connecting descriptor, no channel and no later attempt, even if the retry was already due. '
     'A closed connection leaves the client and the poller, and is reconnected (interval reset) exactly when retrying is enabled and Disconnect or Stop was not called. A client that goes away closes the connection only it holds; nothing of a connection or attempt is leaked, closed twice or used after it is gone.',
     ['histories', 'schedules', 'inputs'], 'every errno of connect and SO_ERROR, every address, every combination of events, Stop, restart and destruction at every state, from either thread',
     'tests connect to a local server once; 30 retries in a row, a failure between two events or a client dropped in between cannot be sampled',
     ['kanon/net/connector.cc', 'kanon/linux/net/connector.cc', 'kanon/net/connector.h', 'kanon/net/tcp_client.cc', 'kanon/net/tcp_client.h', 'kanon/net/sock_api.cc', 'kanon/linux/net/sock_api.cc'],
     [('Connect, CompleteConnect', 'kanon/linux/net/connector.cc'), ('Retry, ResetChannel, StopInLoop, Restrat', 'kanon/net/connector.cc'), ('NewConnection, CloseConnectionHandler, ~TcpClient', 'kanon/net/tcp_client.cc')],
     'One step per attempt, event, timer or request from every state of the connector; the sequence of delays is followed to its fixed point. The client runs with the real connection code against the contract of the connector.')
prop('C19', 'A server hands every accepted connection to its loops in turn and cleans up',
     'The acceptor binds and listens once, on the given address; an accepted connection is handed over once with the address of its peer, and a connection nobody takes, or for which there is no descriptor left, is closed without disturbing the listening or leaking a descriptor. '
     'The server gives each connection to the next loop of the pool in round-robin order (its own loop if there are no others), keeps it under a name of its own and reports it up once in the thread of that loop; a closed connection is reported down once there, leaves the server (and no other connection does) and its channel leaves the poller after the round. '
     'Starting from any thread, any number of times, starts the pool once (init callback first, in each loop) and listens once. A server that goes away closes every connection in its loop, joins its loop threads and leaves nothing behind; a loop thread publishes its loop only while it runs, and stopping it never touches a loop that is gone.',
     ['histories', 'schedules', 'inputs'], 'every pool size and position, every result of accept, every address, every way and time a connection closes, closing by the loop while the server goes away',
     'tests accept a few connections on loopback; running out of descriptors, closing during destruction or a loop that quits at once cannot be sampled',
     ['kanon/net/tcp_server.cc', 'kanon/net/tcp_server.h', 'kanon/net/event_loop_pool.cc', 'kanon/net/event_loop_thread.cc', 'kanon/net/acceptor.cc', 'kanon/net/socket.cc', 'kanon/linux/net/sock_api.cc', 'kanon/net/sock_api.cc'],
     [('TcpServer, ~TcpServer, StartRun', 'kanon/net/tcp_server.cc'), ('Acceptor', 'kanon/net/acceptor.cc'), ('GetNextLoop, StartRun', 'kanon/net/event_loop_pool.cc'), ('EventLoopThread', 'kanon/net/event_loop_thread.cc')],
     'The server runs with the real connection code against the contracts of acceptor, loop thread and table of connections; these are verified on their own code. The pool start is a loop proved for any number of threads.')
prop('C26', 'Mutex, condition, latch, reader/writer lock, thread and pool keep their word',
     'A mutex is held by exactly the thread that locked it and IsLockedInThisThread says so; waiting on a condition gives the mutex up and gets it back, and a timed wait uses the deadline now + given time and says whether it passed. '
     'A thread waiting for a latch continues only after the count has reached 0, and whoever brings the count to 0 wakes the waiters. A writer is alone inside a reader/writer lock, readers exclude writers, nobody overtakes a waiting writer and no wake-up is lost. '
     'A Thread runs its function exactly once in the new thread, also when the object is moved or gone by then, and is joined or detached exactly once. '
     'A thread pool runs every queued task exactly once in order without holding its lock, never queues more than its limit, and joins all its threads after the last task.',
     ['schedules', 'histories'], 'every interleaving with other threads that use the same functions, spurious wake-ups, every count, limit and number of threads',
     'unit tests see a few friendly schedules; lost wake-ups, spurious wake-ups and overtaking need particular interleavings',
     ['kanon/thread/mutex_lock.h', 'kanon/thread/condition.h', 'kanon/thread/condition.cc', 'kanon/thread/count_down_latch.h', 'kanon/thread/rw_lock.cc', 'kanon/thread/thread.cc', 'kanon/thread/thread.h', 'kanon/thread/thread_pool.cc'],
     [('Lock, TryLock, Unlock, holder', 'kanon/thread/mutex_lock.h'), ('WaitForSeconds', 'kanon/thread/condition.cc'), ('Wait, Countdown', 'kanon/thread/count_down_latch.h'), ('RLock..WUnlock', 'kanon/thread/rw_lock.cc'), ('StartRun, Join, Run', 'kanon/thread/thread.cc'), ('Push, Pop, workers', 'kanon/thread/thread_pool.cc')],
     'Rely/guarantee: each function is verified against a monitor contract in which the other threads change the protected state between lock operations in every way these functions permit; notification duties are obligations at each release.')
prop('C21', 'The rolling log file keeps every appended byte and removes only old files',
     'Every byte appended to a log file goes, in order, to the file that is current (unless the device fails); a new file with a new name is started after an append that brought the file beyond its size limit or ended its period (at most one per second), only then, and the old file is closed. '
     'Data is flushed when the flush interval is over and on Flush. A missing directory is created so that files can be created in it. '
     'With a limit on the number of files, exactly the files older than the current one are removed, each once and oldest first, once the limit is reached, by a thread that is woken whenever there is something to remove and ends, after its last file, when the log file goes away. The thread-safe kind appends under its lock.',
     ['inputs', 'histories', 'schedules'], 'every size, limit, interval, time of the clock and number of files; every interleaving of the appending and the removing thread',
     'tests write a few lines and never wait for a period, reach the limit or race with the removing thread',
     ['kanon/log/log_file.cc', 'kanon/log/log_file.h', 'kanon/log/append_file.cc', 'kanon/log/append_file.h'],
     [('Append, RollFile, GetLogFilename, removing thread', 'kanon/log/log_file.cc'), ('fopen/mkdir, fwrite loop', 'kanon/log/append_file.cc')],
     'Real LogFile and AppendFile from an arbitrary state against contracts of stdio, clock and threads; the thread that removes files is verified against the hand-over contract (rely/guarantee).')
prop('C22', 'The asynchronous log writes every record once, whole and in order',
     'A record appended by any thread is kept whole behind everything appended before, in the current buffer or, if that is full, at the start of a fresh one, and a full buffer wakes the thread that writes. '
     'That thread takes all buffers at once, leaves an empty current and spare buffer behind, and writes the taken ones to the log file in order, each whole and once, without holding the lock, and flushes; if more than 16 piled up, only the first 16 are written, with a message. '
     'It waits only while nothing is full and at most for the flush interval. Everything appended before Stop is written before Stop returns; Stop and the destructor wake and join the thread.',
     ['schedules', 'inputs', 'histories'], 'every length and number of buffers, every interleaving of appending threads, Stop and the thread that writes',
     'a test cannot place Stop between the last swap and the end of the loop, nor fill more than 16 buffers in the right moment',
     ['kanon/log/async_log.cc', 'kanon/log/async_log.h', 'kanon/string/fixed_buffer.h'],
     [('Append, StartRun (thread), Stop', 'kanon/log/async_log.cc'), ('SetupAsyncLog', 'kanon/log/async_log.h'), ('Append, reset', 'kanon/string/fixed_buffer.h')],
     'Rely/guarantee: the other side changes the shared buffers before every lock operation and wait in every way its functions permit; the loop that writes has an invariant.')
prop('C05', 'Reserved arrays and fixed vectors keep their elements',
     'A ReservedArray has exactly the size that was asked for; Grow and Shrink keep the elements in front, Grow adds default ones, copies are equal and independent, moves and swaps transfer everything, assignment works between all sizes including empty ones and to itself. '
     'Every element is constructed and destroyed exactly once and all memory is returned, for plain numbers, objects that move, objects that are only copied and objects that may be moved by realloc. '
     'A FixedVector holds the elements constructed in it, in place, and destroys each once.',
     ['inputs', 'histories'], 'arrays of up to three elements (six after Grow) with arbitrary values, one operation each, four kinds of elements',
     'no test grows, shrinks or assigns arrays of objects; a leaked or doubly destroyed element shows only for types with destructors and particular pairs of sizes',
     ['kanon/algo/reserved_array.h', 'kanon/algo/fixed_vector.h', 'kanon/algo/construct.h', 'kanon/algo/libc_allocator_with_realloc.h', 'kanon/zstl/uninitialized.h'],
     [('Reallocate, Shrink_impl, CopyAssignment*', 'kanon/algo/reserved_array.h'), ('Construct, ~FixedVector', 'kanon/algo/fixed_vector.h')],
     'Bounded (not counted as proved): the real templates are executed symbolically for every size within the bound, all loops unrolled to their end; every memory access, the count of elements in existence and the heap are obligations. The storage of byte buffers (C01) uses the same array and is proved for all sizes there.')
prop('C06', 'The forward list is an exact sequence that owns its elements',
     'A ForwardList holds exactly the elements that were put into it, in the order its operations say: push and emplace at both ends, insert_after (one, many, a range, a node), pop_front, erase_after (one, a range), clear, assign, resize, copy, move, swap, splice_after (a list, an element, a range, order kept), merge of sorted lists, sort, sort2, remove, unique, reverse, search_before and the comparisons give what the same operation on a plain sequence gives. '
     'After every operation the size, the first and the last element (front, back, before_end) are those of the sequence, so the next push_back goes to its end; an extracted node keeps its value and can be put back. Every element is made and destroyed once, and no node is leaked, freed twice or used after it was freed.',
     ['inputs', 'histories'], 'every list of up to three elements with arbitrary values, every position, one or two operations and a push_back after them',
     'tests use a few fixed lists and rarely go on after an operation; a wrong last element shows only at the next operation there',
     ['kanon/algo/forward_list.h', 'kanon/algo/forward_list/forward_list_impl.h', 'kanon/algo/forward_list/algorithm.cc', 'kanon/algo/forward_list/forward_list_iterator.h'],
     [('ForwardList', 'kanon/algo/forward_list.h, kanon/algo/forward_list/forward_list_impl.h'), ('push_front .. reverse', 'kanon/algo/forward_list/algorithm.cc')],
     'Bounded (not counted as proved): the real operations are executed symbolically on every list within the bound, all loops unrolled to their end, and compared with a plain array; every memory access is an obligation.')
prop('C07', 'Text streams never overrun their buffer and print values exactly',
     'FixedBuffer, LexicalStream and FmtStream of every size: appending text, a character, a bool, an integer of any type, a floating-point number or an address never writes outside the buffer and never changes what is there already; what does not fit is left out as a whole, what fits is added completely and terminated, and the length says so. '
     'Integers are printed as their exact decimal digits (with a sign if negative, also for the smallest value), addresses as 16 hexadecimal digits ("(null)" for none), bools as True/False. '
     'FmtStream replaces each % by the text of the next argument and %% by %, and copies everything else unchanged; it never reads outside the format. Fmt never reports more than it holds. StrCat and StrAppend give the pieces one after another.',
     ['inputs'], 'every buffer length and contents, every text, every value of the integer types, every address',
     'tests print a few values into large empty buffers; full buffers, limits of the types and formats that end in % are never sampled',
     ['kanon/string/fixed_buffer.h', 'kanon/string/fixed_buffer.cc', 'kanon/string/lexical_stream.h', 'kanon/string/fmt_stream.h', 'kanon/string/string_util.h'],
     [('FixedBuffer, int2Str, ptrToHexStr', 'kanon/string/fixed_buffer.h'), ('LexicalStream, Fmt', 'kanon/string/lexical_stream.h'), ('FmtStream', 'kanon/string/fmt_stream.h'), ('StrCat, StrAppend', 'kanon/string/string_util.h')],
     'Postconditions on every operation for every state of the buffer; int2Str and ptrToHexStr against the digits of the number.')
prop('C08', 'Texts convert to exactly the number they show, or to nothing',
     'StringViewToU64/64/U32/32/U16/16/U8/8 (any base) and lexical_cast to every integer type, from a StringView or std::string that need not be terminated: the result is the number shown by the text if the type represents it, and there is no value if the text does not start with a number (lexical_cast: is not just a number) or the number is out of range of the type; it is never truncated, and a negative number never becomes a small unsigned one. '
     'Texts of any length are safe; nothing is read beyond them. lexical_cast of a number to a string gives exactly its text, whatever was converted before.',
     ['inputs'], 'every text up to 71 (lexical_cast 63) characters and every value and length of the number in it; longer texts: no overrun and no wrong value',
     'tests convert a few well-formed numbers; limits of each type, overflow and malformed texts are never sampled',
     ['kanon/string/string_view_util.h', 'kanon/string/string_view_util.cc', 'kanon/string/lexical_cast.h'],
     [('StringViewToXX, Convert', 'kanon/string/string_view_util.cc'), ('NarrowOptional and the 16- and 8-bit versions', 'kanon/string/string_view_util.h'), ('LexicalCast', 'kanon/string/lexical_cast.h')],
     'Postconditions of each conversion over the contract of strtol/strtoul/strtoll/strtoull: one abstract number of any sign, magnitude (also beyond 64 bits) and number of characters.')
prop('C09', 'Time stamps compute and print exactly to the microsecond',
     'A time stamp is a number of microseconds since the epoch; seconds and milliseconds are that number divided towards zero. Adding and subtracting time stamps, microseconds, milliseconds and seconds (any int) is exact, from either side, and floating-point seconds are exact to the microsecond. '
     'All comparisons are those of the microseconds; TimeDifference is the difference in seconds. Now and FromUnixTime give seconds times 10^6 plus microseconds. '
     'ToString is the exact decimal number of seconds with six digits of microseconds (with a sign before the epoch), ToFormattedString the local date and time of the second that contains the time, with six digits of microseconds if asked for; FromTimeStr gives the parsed time or 0 and says which.',
     ['inputs'], 'every time below 2^61 microseconds, every int amount, every double below 10^12, every local time',
     'tests check a few times; overflow of the amount, times before the epoch and small fractions are never sampled',
     ['kanon/util/time_stamp.h', 'kanon/util/time_stamp.cc'],
     [('operators, AddTime, TimeDifference', 'kanon/util/time_stamp.h'), ('ToString, ToFormattedString, FromTimeStr, Now', 'kanon/util/time_stamp.cc')],
     'Postconditions on every function; the digits of a number are abstract in the proof, their place, count and number are checked.')
prop('C04', 'A chunk list is an exact queue of bytes that owns its chunks',
     'A chunk list always shows exactly the bytes that were prepended and appended (also by AppendChunkList, Clone, CopyAssign, move and swap) and not yet consumed, in order, whatever the fill of each of its chunks; GetReadableSize is their number. '
     'Integers go in and out in network byte order; peeking consumes nothing. Appending takes free chunks before it allocates, never more chunks than the bytes need, and none after ReserveWriteSpace promised the room; the first chunk keeps room for a size header. '
     'Consumed chunks are reused, Shrink keeps the requested number, and every chunk is freed exactly once. No operation touches memory outside its chunks.',
     ['inputs', 'histories'], 'every content, every fill of every chunk and every size, lists of up to 3 chunks and 4 free chunks (Append to an empty list: any size, in the thorough check)',
     'tests append and read a few texts; partly filled chunks in the middle, exact chunk limits and reuse after consumption are never sampled',
     ['kanon/buffer/chunk_list.h', 'kanon/buffer/chunk_list.cc', 'kanon/algo/forward_list.h', 'kanon/algo/forward_list/algorithm.cc'],
     [('Append, AdvanceRead, Reserve*, Shrink, AppendChunkList', 'kanon/buffer/chunk_list.cc'), ('Prepend, Read, Clone, CopyAssign', 'kanon/buffer/chunk_list.h'), ('the list of chunks', 'kanon/algo/forward_list.h')],
     'Bounded, not counted as proved: every operation of the real classes on symbolic lists of at most 3 chunks, all loops unrolled to their end, all bytes, indices and sizes arbitrary. The thorough check also proves Append to an empty list for any length (loop invariants).')
prop('C20', 'Addresses mean what their texts say',
     'An address made from a port is the any or the loopback address of the family that was asked for, with that port in network byte order and nothing undefined in it. An address made from a text takes exactly the host part (up to the colon, or between the brackets) and exactly the port part behind it: '
     '"1.2.3.4:port" and "*:port" are IPv4 addresses, "[v6]:port" an IPv6 address, a name is looked up with its service and the first result is taken; InetAddr(ip, port) takes a text with a colon for IPv6, one with dots only for IPv4. A text of no such form, with no port number, or a name without an address is reported with InetAddrException, and no text is ever read beyond its end. '
     'Resolve gives every address that was found, in order, asks for addresses to bind only for servers, and frees the result. ToIp and ToIpPort show the address, in brackets if it is IPv6, and its port. A connection is a self connection exactly if both of its ends have the same address and port.',
     ['inputs'], 'every text of any length and content, every port, every answer of the resolver of up to three addresses (one, for names given as texts)',
     'tests use a handful of texts; texts that are not terminated, empty, cut after the bracket or mixed (::ffff:1.2.3.4) are never sampled',
     ['kanon/net/inet_addr.cc', 'kanon/net/inet_addr.h', 'kanon/net/sock_api.cc', 'kanon/net/sock_api.h'],
     [('constructors, Resolve, ToIp, ToIpPort', 'kanon/net/inet_addr.cc'), ('ToIpPort, FromIpPort, IsSelfConnect, GetLocalAddr, GetPeerAddr', 'kanon/net/sock_api.cc, kanon/net/sock_api.h')],
     'Postconditions over arbitrary texts; the texts handed to inet_pton and getaddrinfo are compared byte by byte with the part of the argument that was meant.')
prop('C25', 'Buffers move between memory and descriptors without losing a byte',
     'BufferReadFromFd offers the kernel at least 64 KiB, appends exactly the bytes it delivered, in order, keeps what was there and returns their number, or -1 with errno and an unchanged buffer. '
     'ChunkListWriteFd gives the kernel the bytes of the list in order, each once, stops after an error or a short write, returns the number of bytes written, reports errno, and leaves the list alone.',
     ['inputs', 'histories'], 'every state of the buffer or list, every result of readv, write and writev',
     'tests move small messages over loopback; short writes, errors in the middle and reads larger than the free room need a specific kernel answer',
     ['kanon/linux/net/buffer.cc', 'kanon/linux/net/chunk_list.cc', 'kanon/net/sock_api.h'],
     [('BufferReadFromFd', 'kanon/linux/net/buffer.cc'), ('ChunkListWriteFd', 'kanon/linux/net/chunk_list.cc')],
     'BufferReadFromFd: proved for every buffer and result. ChunkListWriteFd: bounded to lists of 3 chunks (not counted as proved). readv, write and writev are contracts.')
na('C23', 'The ring buffer is a bounded FIFO of bytes',
   'RingBuffer (kanon/buffer/ring_buffer.h) gives back the bytes that were appended, in order, and never more than its capacity.', ['inputs', 'histories'], 'every capacity, every sequence of operations',
   'its only test is not part of the reliable tests', ['kanon/buffer/ring_buffer.h'], [('RingBuffer', 'kanon/buffer/ring_buffer.h')],
   'The class is an unfinished experiment that nothing uses: most of its operations contradict each other (full and empty are not distinguished), so no contract holds on the current tree and a repair would be a rewrite.')
na('C27', 'The library as a whole is free of data races and deadlocks',
   'Under any number of threads that use the public interface as documented, no two threads access the same memory without synchronisation and no set of threads waits for each other.', ['schedules'], 'every interleaving of every program that uses the library',
   'interleavings cannot be enumerated by tests', ['kanon/net/event_loop.cc', 'kanon/log/async_log.cc', 'kanon/thread'], [('locks', 'kanon/thread/mutex_lock.h')],
   'The verifier works on one thread at a time: the monitor discipline of each class (fields touched only under their lock, waits in loops, work handed to the loop thread) is verified in C16, C19, C21, C22 and C26; a contract for the whole library over weak memory is out of its reach.')
na('C28', 'RPC messages and calls are delivered and answered exactly once',
   'The protobuf codec rejects every damaged message and delivers every intact one, and each RPC call completes exactly once with its own response.', ['inputs', 'histories'], 'every byte stream, every history of calls',
   'tests need protobuf', ['kanon/protobuf', 'kanon/rpc'], [('codec, channel', 'kanon/protobuf/codec.h')],
   'kanon/protobuf and kanon/rpc need the protobuf compiler and library, which are not installed; the code is not part of the build here, so nothing can be compiled to be verified.')
