INT_VIOLATIONS = True
PROPS = {}
def P(id, **kw): PROPS[id] = kw
MALLOC = 'allocation never fails; object sizes stay below 2^46 bytes'

P('C01', tus=[dict(file='buffer.cc')], level='proof', assumptions=[MALLOC])
P('C02', tus=[dict(file='buffer_int.cc')], level='proof', assumptions=[MALLOC])
P('C03', tus=[dict(file='string_view.cc', libs=['kanon/linux/core/string/strcasecmp.cc']), dict(file='view_split.cc', batch=1)], level='proof', assumptions=[MALLOC, 'toupper and tolower are those of the C locale'],
  bounded=['split, ToUpperString, ToLowerString: texts of at most 5 and splitters of at most 2 characters, all bytes arbitrary, loops unrolled to their end'])

NETFLAGS = ('-I/verif/contracts/stub_cl', '-I/verif/contracts/stub')
LOGDROP = 'log statements are dropped from the extraction; a FATAL statement ends the execution (the real one aborts the process)'
C12H = ['send_bytes', 'send_view', 'send_buffer', 'send_list', 'send_bytes_elsewhere', 'send_buffer_elsewhere', 'send_when_down', 'send_late', 'writable',
        'complete_sends_again', 'writable_withdrawn']
C13H = ['established', 'readable', 'read_after_down', 'events', 'force_close', 'shutdown_write', 'lifetime', 'destroyed', 'read_interest']
CONN = [LOGDROP, 'ChunkList is replaced by its contract, a queue of bytes (contracts/stub_cl; the real class is C04)', 'EventLoop methods are replaced by their contracts (C14, C15, C16)',
        'write on a non-blocking stream socket returns -1 or between 1 and n for n > 0; an error other than EAGAIN is permanent', 'user callbacks return normally']
P('C11', tus=[dict(file='holders.cc', batch=1)], level='proof', assumptions=[MALLOC, 'the held types are samples: a copyable, a move-only and plain numbers'])
P('C12', tus=[dict(file='connection.cc', flags=NETFLAGS, batch=1, harnesses=C12H)], level='proof', assumptions=[MALLOC] + CONN)
P('C13', tus=[dict(file='connection.cc', flags=NETFLAGS, batch=1, harnesses=C13H)], level='proof', assumptions=[MALLOC] + CONN)
P('C14', tus=[dict(file='channel.cc', flags=('-I/verif/contracts/stub',), batch=1)], level='proof', assumptions=[MALLOC, LOGDROP, 'EventLoop::UpdateChannel/RemoveChannel are replaced by recording stand-ins (C15)', 'handlers return normally'])
P('C15', tus=[dict(file='epoller.cc', flags=('-I/verif/contracts/stub',), batch=1), dict(file='poller.cc', flags=('-I/verif/contracts/stub',), batch=1)], level='proof',
  assumptions=[MALLOC, LOGDROP, 'epoll_ctl, epoll_wait and poll are contracts over a ghost table of watched descriptors (epoll_ctl succeeds when the table permits it)',
               'std::vector and std::unordered_map of the pollers are contracts (array, set of descriptors)', 'a descriptor has one channel; every channel removed before its descriptor is closed (C13)'])
C16H = ['el_life', 'el_queue', 'el_run', 'el_call', 'el_loop', 'el_quit']
P('C16', tus=[dict(file='event_loop.cc', flags=('-I/verif/contracts/stub',), batch=1, harnesses=C16H)], level='proof',
  assumptions=[MALLOC, LOGDROP, 'pollers, channels and timers are contracts (C15, C14, C17); pthread mutexes exclude each other; an eventfd is readable after a nonzero write until it is read',
               'std::vector of functors and of channels are contracts (sequences)', 'other threads act on the queue only under its lock and through QueueToLoop and Quit (checked on these functions)', 'handlers and functors return normally'])
P('C17', tus=[dict(file='timer.cc', flags=('-I/verif/contracts/stub',), batch=1), dict(file='event_loop.cc', flags=('-I/verif/contracts/stub',), batch=1, harnesses=['el_timers'])], level='proof',
  assumptions=[MALLOC, LOGDROP, 'std::set, std::vector, std::unordered_map and std::unordered_set of the queue are contracts (ordered by the real comparator)',
               'EventLoop::RunInLoop runs its functor in the loop thread (C16)', 'expirations, intervals and the clock stay below 2^61 microseconds; the clock does not run backwards', 'callbacks return normally and add no timer to the round being processed'])
P('C18', tus=[dict(file='connector.cc', flags=('-I/verif/contracts/stub',), batch=1), dict(file='client.cc', flags=NETFLAGS, batch=1)], level='proof',
  assumptions=[MALLOC] + CONN + ['socket, connect, getsockopt, getsockname and getpeername are contracts with arbitrary results; socket succeeds', 'RunAt and CancelTimer are contracts (C17)'])
P('C19', tus=[dict(file='server.cc', flags=NETFLAGS, batch=1), dict(file='acceptor.cc', flags=('-I/verif/contracts/stub',), batch=1), dict(file='loop_thread.cc', flags=('-I/verif/contracts/stub',), batch=1)], level='proof',
  assumptions=[MALLOC] + CONN + ['accept, bind, listen, open and setsockopt are contracts with arbitrary results (setsockopt, bind, listen and open succeed; an error of accept other than EAGAIN, ECONNABORTED, EINTR and EMFILE ends the process by design)',
               'the table of connections (std::unordered_map) and the loop threads (std::vector) are contracts; at most two connections are followed while a server goes away (bounded), any number otherwise',
               'pthread mutexes exclude each other; condition variables may wake up spuriously', 'the pool of connections (EnablePool) is off', 'snprintf gives different texts for different arguments', 'the number of loops is not changed after the start'])
P('C26', tus=[dict(file='thread.cc', batch=1), dict(file='thread_pool.cc', batch=1)], level='proof',
  assumptions=[MALLOC, 'pthread mutexes exclude each other, condition variables may wake up spuriously, pthread_create, mutex and condition functions succeed', 'fewer than 4e9 readers, latch counts below 10^6',
               'std::queue of tasks and std::vector of threads are contracts (a queue, an array)', 'thread functions and tasks return normally', 'other threads use these objects only through the functions of the classes (checked on these functions)'])
P('C21', tus=[dict(file='log_file.cc', flags=('-I/verif/contracts/stub',), batch=1)], level='proof',
  assumptions=[MALLOC, 'stdio functions, mkdir, remove, the clock (which does not run backwards) and pthread functions are contracts; fwrite writes everything unless the device fails',
               'std::vector of file names is a contract (files that follow each other); the base name, process id and host name are fixed texts, five prefixes are tried (bounded), all else is arbitrary', 'the roll interval is not 0'])
P('C22', tus=[dict(file='async_log.cc', flags=('-I/verif/contracts/stub',), batch=1)], level='proof',
  assumptions=[MALLOC, 'LogFile (C21), Condition::WaitForSeconds (C26), Thread (C26) and pthread functions are contracts; the list of full buffers (std::vector) is a contract',
               'a record is shorter than a buffer (4 MiB; a longer one is dropped)', 'the thread that writes is followed for two rounds from its start; its state after each round is the same kind of state (two empty buffers, nothing taken)', 'the flush interval is 5 s'])
P('C07', tus=[dict(file='text.cc', batch=1)], level='proof',
  assumptions=[MALLOC, 'snprintf is a contract: "%.12g" writes at most 19 characters and a terminator', 'long long and unsigned long long share the template verified at long and unsigned long', 'FmtStream: any text around one placeholder or escape, a fixed set of texts with several'])
P('C08', tus=[dict(file='numbers.cc', batch=1)], level='proof',
  assumptions=[MALLOC, 'the strtol family is a contract: it reads a terminated text, consumes the number at its start and gives its value, or says ERANGE', 'snprintf is a contract (see C07)', 'conversions do not run in two threads at the same time (the buffer of lexical_cast to a string is shared)'])
P('C09', tus=[dict(file='time_stamp.cc', batch=1)], level='proof',
  assumptions=['the clock, localtime_r, strptime, mktime and snprintf are contracts (snprintf writes the decimal digits of its arguments)', 'times stay below 2^61 microseconds (text: 10^17), floating-point amounts below 10^12 s', 'local times lie in the years 1900 to 9999'])
CHUNKB = 'bounded: lists of at most 3 chunks (Append, AppendChunkList, Clone: 2) and 4 free chunks, at most 8197 bytes appended at once; every loop is unrolled to its end; all bytes, indices and sizes are arbitrary'
C04H = ['append0', 'append0_free', 'append1_free', 'append1', 'append1_free1', 'append1_free2', 'append2', 'append2_free', 'append_view', 'append_8', 'append_16', 'append_32', 'append_64', 'prepend', 'prepend_8', 'prepend_16', 'prepend_32', 'prepend_64',
        'read_8', 'read_16', 'read_32', 'read_64', 'peek_8', 'peek_16', 'peek_32', 'peek_64', 'advance_read0', 'advance_read1', 'advance_read2', 'advance_read3', 'advance_read_all',
        'append_list', 'clone', 'copy_assign', 'move_construct', 'move_assign', 'swaps', 'swaps2', 'destroyed', 'shrink', 'reserve_free', 'reserve_chunk', 'reserve_space', 'chunk_access']
P('C04', tus=[dict(file='chunk_list.cc', batch=1, harnesses=C04H, thorough_only=('advance_read3',)), dict(file='chunk_grow.cc', batch=1, harnesses=['append_first', 'append_first_bytes'], thorough_only=('append_first', 'append_first_bytes'))],
  level='model_checking', bounded=[CHUNKB], slow=('advance_read2', 'append2', 'append1', 'append2_free'), assumptions=[MALLOC, 'the allocator of list nodes is a contract (distinct chunks)'])
P('C25', tus=[dict(file='chunk_list.cc', batch=1, harnesses=['write_fd']), dict(file='read_fd.cc', flags=('-I/verif/contracts/stub',), batch=1)],
  level='model_checking', bounded=['ChunkListWriteFd: lists of at most 3 chunks (the bound of 1024 parts per writev is not reached)'],
  assumptions=[MALLOC, LOGDROP, 'readv, write and writev are contracts: -1 and errno, or any number of bytes up to what was asked for'])
P('C05', tus=[dict(file='reserved.cc', batch=1)], level='model_checking', bounded=['arrays of at most three elements (six after Grow), one operation; the values are arbitrary'], assumptions=[MALLOC, 'constructors do not throw'])
P('C06', tus=[dict(file='forward_list.cc', batch=1)], level='model_checking', bounded=['lists of at most three elements (two for the second list of some operations), one or two operations; the values are arbitrary'], assumptions=[MALLOC])
P('C10', tus=[dict(file='memory_pool.cc', batch=1)], level='model_checking', bounded=['pools of which at most three chunks were taken before, of at most three chunks a block, objects of 1, 8, 12 or 24 bytes'], assumptions=[MALLOC, 'the number of chunks per block is not changed after the first allocation and every call names the same object size'])
P('C20', tus=[dict(file='address.cc', flags=('-I/verif/contracts/stub',), batch=1)], level='proof', slow=('ad_text_name', 'ad_text4', 'ad_text6'),
  assumptions=[MALLOC, LOGDROP, 'inet_pton, inet_ntop, getaddrinfo, getsockname and getpeername are contracts with arbitrary results; an ip text that inet_pton refuses ends the process by design; isalpha and isalnum are those of the C locale', 'the port text is converted as C08 says',
               'snprintf writes the decimal digits of its arguments', 'the names of sockets fit a sockaddr_in6'], bounded=['at most three addresses are found (one, for a name given in a text)'])
