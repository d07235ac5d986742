#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long lines stay reviewable)."""
import json, os
N='include/crab/'
H='include/crab/http/'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
NOTEST="No existing test touches the run loop, sockets, timers, server or client at all; "

prop('C01','Timers fire once per arming, never early, and promptly',
"A Timer armed with once()/once_at() runs its handler exactly once per arming, never before the deadline last set (by the monotonic clock the loop uses) and within about a millisecond of that deadline plus whatever time handlers and the OS keep the loop busy; timers armed once each run in deadline order. Re-arming to an earlier or later time from anywhere, including its own handler, replaces the old deadline, cancel() or destruction prevents the run, and is_set() is true exactly while a run is owed (it is already false inside the handler). Interrupted waits, wall-clock jumps, delays beyond the maximum sleep (or so large they saturate), and any mix of other loop events never change this.",
['schedules','histories','fault_sequences'],
"every sequence of arm/re-arm/cancel/destroy operations on any set of timers, every handler duration, every delay from negative to infinite, every pattern of EINTR, late wake-ups, spurious events and wall-clock jumps",
NOTEST+"the property quantifies over histories of re-arming and over how late the loop wakes.",
[N+'network.hxx',N+'network.hpp',N+'intrusive_heap.hpp'],
[('RunLoopLinks::process_timer',N+'network.hxx'),('Timer::once / once_at / cancel',N+'network.hxx'),('IntrusiveHeap insert/erase/pop_front',N+'intrusive_heap.hpp')],
[('fire_time / moved_fire_time','heap key and lazily moved deadline',N+'network.hpp'),('RunLoopLinks::now','clock cached once per pass',N+'network.hpp')],
['Timer handler invocations against steady_clock','Timer::is_set()'])

prop('C02','No handler runs after cancel/close/destroy; any object may die in any handler',
"After Timer, Watcher, DNSResolver or ClientRequest cancel(), TCPSocket/BufferedTCPSocket close(), an Idle deactivation, or destruction of any loop object, that object's handler is not called again unless it is armed anew (close(true) delivers exactly one call, with the socket closed). Any handler may cancel, close, re-arm or destroy any loop object, including objects that already have events pending in the same batch and including its own, without use of freed memory, and without other objects losing their notifications.",
['schedules','histories'],
"every set of live objects, every batch of simultaneous events, every choice of operations inside each handler",
NOTEST+"use-after-free here needs several events collected by one wait and a handler that destroys a particular other object.",
[N+'network.hxx',N+'network_posix.hxx',N+'network_base.hpp',N+'intrusive_list.hpp'],
[('Callable::cancel_callable and IntrusiveNode destructor unlink pending events',N+'network_base.hpp'),('RunLoop::run pops one triggered Callable at a time',N+'network.hxx'),('Watcher::cancel / ~Watcher',N+'network.hxx')],
[('triggered_callables','pending handlers of this batch',N+'network.hpp')],
['handler invocations per object lifetime','memory errors (AddressSanitizer)'])

prop('C03','Watcher::call from any thread is never lost and runs on the loop thread',
"After any thread calls Watcher::call(), the watcher's handler starts at least once after that call was made (never before it), on the thread that owns the loop, without waiting for any unrelated event; several calls before the handler starts may be merged into one run, but handlers never run more often than calls were made. Calls made while the handler runs cause another run, calls for other watchers are not lost, and after cancel() no run happens until the next call().",
['schedules'],
"every interleaving of calling threads with the loop thread, at statement granularity, with any number of watchers, calls from inside handlers, cancels and re-calls",
NOTEST+"lost wake-ups depend on the exact interleaving of call(), the eventfd read and the wait.",
[N+'network.hxx',N+'network_posix.hxx'],
[('RunLoopLinks::call_watcher / trigger_called_watchers',N+'network.hxx'),('wake_callable eventfd read before draining',N+'network_posix.hxx'),('Watcher::cancel',N+'network.hxx')],
[('fired_objects','watchers called by other threads, under mutex',N+'network.hpp'),('wake_fd','eventfd of the loop',N+'network.hpp')],
['handler start/end and call() invoke/return events with thread ids'])

prop('C04','RunLoop::cancel and crab::Thread stop a loop promptly from any thread',
"RunLoop::cancel(), called from any thread or from a handler at any moment while run() is executing, makes run() return without waiting for unrelated events or timers, and the loop can be run again afterwards. crab::Thread's constructor returns only after the loop of the new thread exists and is the current loop for that thread's function; cancelling a Thread any number of times and destroying it at any moment (before its function calls run() included, when the function then runs its loop) stops the loop and joins the thread without deadlock and without touching a destroyed loop.",
['schedules'],
"every interleaving of cancel(), Thread construction, cancellation and destruction with the loop thread's start, waits, handlers and exit",
NOTEST+"deadlocks and missed quits exist only in particular interleavings.",
[N+'network.hxx',N+'network_posix.hxx'],
[('RunLoop::run / cancel / wakeup',N+'network.hxx'),('Thread::Thread / cancel / ~Thread',N+'network.hxx')],
[('links.quit','stop flag',N+'network.hpp'),('Thread::run_loop_ptr','loop of the live thread, under mutex',N+'network.hpp')],
['return of run()','return of ~Thread()'])

prop('C05','Idle handlers run fairly, only when nothing is due, and the loop never spins',
"Idle handlers run only when no event and no expired timer is waiting; all active idles run in round-robin fashion, a de-activated or destroyed one never runs, and an active idle never keeps I/O, timers or watchers from being served. With no active idle and nothing due, the loop blocks in the OS instead of spinning, and it never sleeps while a handler is owed.",
['schedules','histories'],
"every mix of idles, timers, sockets and watchers, activation changes inside handlers, every event arrival pattern",
NOTEST+"fairness and absence of spinning are statements about unbounded histories.",
[N+'network.hxx',N+'network_posix.hxx'],
[('RunLoop::run idle branch',N+'network.hxx'),('Idle::set_active',N+'network.hxx')],
[('idle_handlers','round-robin list',N+'network.hpp')],
['order of handler invocations','epoll_wait calls and timeouts per simulated time'])

prop('C06','TCPSocket delivers the exact byte stream and never misses readiness',
"Bytes read from a TCPSocket are exactly the bytes the peer wrote, in order, without loss or duplication, and the peer receives exactly the bytes write_some() reported as accepted, for contiguous, scatter and gather calls alike. A reader that reads until read_some() returns 0, and a writer that writes until write_some() returns 0, is always called again when the socket becomes readable or writable, so both directions always finish once the peer cooperates. can_write() is true exactly when the last attempt did not fill the socket (or writability was signalled since).",
['schedules','fault_sequences','inputs'],
"every segmentation of the stream, short read and write, full socket buffer, delayed or merged or spurious edge-triggered event, and every interleaving of reads and writes in the handler or outside it",
NOTEST+"edge-triggered readiness is lost only for particular arrival orders.",
[N+'network_posix.hxx',N+'network.hxx'],
[('TCPSocket::read_some / write_some clear can_read/can_write on EAGAIN',N+'network_posix.hxx'),('RunLoop::step maps epoll events to can_read/can_write',N+'network_posix.hxx')],
[('Callable::can_read/can_write','cached readiness',N+'network_base.hpp')],
['bytes on both ends','quiescence with undelivered data'])

prop('C07','Connect result and disconnect are each reported exactly once, never missed',
"A connect() that returns true is followed by a handler call that finds the socket either open and writable or closed; a connect() that returns false leaves the socket closed and calls nothing. When the peer closes, resets, or any real error is met, an open socket whose user keeps reading is told so by exactly one handler call that finds is_open() false, after which no further call is made until it is connected or accepted again; data that arrived before a graceful close is delivered first. The same object can then be reused for a new connection with none of the old connection's events or bytes leaking into it.",
['schedules','fault_sequences','histories'],
"every outcome and timing of connection establishment (immediate, delayed, refused, unreachable, timed out, failing socket options or registration), every close/reset instant relative to reads, writes and pending events, every reuse of the object",
NOTEST+"the outcome depends on when the failure lands relative to pending events.",
[N+'network_posix.hxx'],
[('TCPSocket::connect / accept / close(with_event) / is_open',N+'network_posix.hxx')],
[('TCPSocket::fd, rwd_handler pending','open state',N+'network.hpp')],
['handler calls with is_open()'])

prop('C08','Every descriptor is closed exactly once, never leaked, never used after close',
"Every OS descriptor the library obtains is closed exactly once: by close(), by destruction, or on the error path of the call that obtained it, whatever system call fails at whatever point (including in constructors that throw, accept and connect paths), and no operation is ever issued on a descriptor after it was closed. When all library objects are gone no descriptor remains open, and a failed constructor or connect leaves the loop fully usable.",
['fault_sequences','histories'],
"every failing system call position in every constructor and operation, every order of destruction and reuse",
NOTEST+"descriptor leaks hide on error paths that ordinary runs never take.",
[N+'network_posix.hxx',N+'network_base.hpp'],
[('details::FileDescriptor RAII, reset and swap',N+'network_posix.hxx'),('temporary FileDescriptor swapped in last',N+'network_posix.hxx')],
[],['simulated descriptor table'])

prop('C09','The acceptor hands over every pending connection once and recovers from limits',
"Every connection that reaches the listening queue is returned by can_accept()/accept() exactly once, in order, with its own peer address, and two accepts never share a connection. Transient accept errors (aborted or refused connections, interruption) never stop it, and resource exhaustion or unexpected errors only delay it: while the condition lasts it keeps retrying about once per second without spinning, and after it clears every still-pending connection is accepted within about a second without needing a new connection to arrive.",
['fault_sequences','schedules'],
"every burst of connections, every sequence of accept() errors and descriptor exhaustion periods, every pattern of accepting several or one per handler call",
NOTEST+"a stalled acceptor needs an error at a particular point of a burst.",
[N+'network_posix.hxx'],
[('TCPAcceptor::can_accept error classification',N+'network_posix.hxx'),('fd_limit_timer retry',N+'network_posix.hxx')],
[('accepted_fd / accepted_addr','connection accepted in advance',N+'network.hpp')],
['accepted sockets against the simulated listen queue'])

prop('C10','BufferedTCPSocket sends everything in call order and accounts for it exactly',
"Everything passed to write() and buffer() on an open BufferedTCPSocket reaches the peer exactly once and in call order, across any mix of copies, moves, direct write_some(), buffer-only calls and any pattern of short writes and full sockets. get_total_buffer_size() equals at every moment exactly the bytes accepted but not yet handed to the OS and is 0 after close; a write() that cannot complete is continued automatically as the socket drains, without further calls from the user.",
['schedules','fault_sequences','inputs'],
"every sequence of write/buffer/write_some calls and sizes, every short-write and back-pressure pattern",
NOTEST+"needs partial writes at particular chunk boundaries.",
[H+'connection.hxx',N+'streams.hxx'],
[('BufferedTCPSocket::write / buffer / sock_handler',H+'connection.hxx')],
[('data_to_write / total_data_to_write','outgoing queue and its size',H+'connection.hpp')],
['peer byte stream','get_total_buffer_size()'])

prop('C11','write_shutdown sends all data, then FIN, and the close is bounded in time',
"After write_shutdown() the peer receives all data accepted before it, then end-of-stream, and no byte written afterwards; end-of-stream is never sent ahead of buffered data. Data received after it is discarded, and the socket closes with exactly one notification as soon as the peer also finishes or, failing that, no later than about 15 seconds after the data was flushed.",
['schedules','fault_sequences'],
"every amount of unsent data, every peer behaviour after the shutdown (finish, keep sending, stay silent, stall, reset) and every timing",
NOTEST+"involves a 15-second timer, back-pressure and peer behaviour.",
[H+'connection.hxx'],
[('BufferedTCPSocket::write_shutdown / write / shutdown_timer_handler',H+'connection.hxx')],
[('write_shutdown_asked','shutdown requested, maybe data pending',H+'connection.hpp')],
['peer stream end','handler with is_open()==false'])

prop('C12','UDP datagrams keep their boundaries and readers and writers are always woken',
"Each read_datagram() returns one datagram that was really delivered to that socket: whole, or cut to the caller's buffer, with its true sender address, never merged, split, repeated or reordered by the library; zero-length datagrams count. A reader that reads until nothing is returned is called again whenever more datagrams arrive, also after transient receive errors, and a write_datagram() that returned false because the send buffer was full is followed by a handler call when it can be retried; one that returned true was handed to the OS once at most.",
['schedules','fault_sequences'],
"every pattern of loss, duplication, reordering, bursts, send-buffer exhaustion and asynchronous ICMP errors",
NOTEST+"lost wake-ups need an error or exhaustion between two datagrams.",
[N+'network_posix.hxx'],
[('details::read_datagram / write_datagram',N+'network_posix.hxx')],
[('Callable::can_read/can_write','cached readiness',N+'network_base.hpp')],
['datagrams in and out of the simulated network'])

prop('C13','Each DNS resolve is answered exactly once on its loop, or cancelled for good',
"Every DNSResolver::resolve() that is not cancelled leads to exactly one handler call, on the thread of the resolver's loop, with the addresses of exactly that request (its host, port and address families; empty on failure), whatever other resolvers on other loops do. After cancel(), destruction, or a new resolve(), the previous request's handler is never called, even when the worker thread is at that moment resolving it or delivering it; is_open() is true exactly between resolve() and the answer or cancel. Static destruction at process exit, with lookups queued or in flight, ends the worker thread.",
['schedules'],
"every interleaving of any number of resolvers and loops with the worker thread, every lookup duration and failure, cancellation or destruction at every point",
NOTEST+"races between cancel and delivery exist only in particular interleavings.",
[N+'network.hxx'],
[('DNSWorker::worker_fun under dns_mutex',N+'network.hxx'),('DNSResolver::resolve / cancel / on_handler',N+'network.hxx')],
[('executing_request, work_queue','request in progress and queue',N+'network.hxx')],
['handler calls per resolve','thread id of the call'])

prop('C14','A Signal handler runs for every burst of its signals, on its loop, and only then',
"While a Signal object exists, delivery of any of its signals at any time makes its handler run at least once after the delivery, on the loop thread, and never otherwise; several deliveries may be merged but none is lost. Only the requested signals are affected (SIGINT and SIGTERM by default), and destruction ends both the handler calls and the masking.",
['schedules'],
"every arrival time of signals relative to waits, reads and handlers, every set of signals",
NOTEST+"a lost signal needs an arrival between the drain and the handler.",
[N+'network_posix.hxx'],
[('Signal constructor: signalfd and drain loop',N+'network_posix.hxx')],
[],['handler calls','thread signal mask'])

prop('C15','Streams and buffers conserve bytes under every short read and write',
"For every stream (circular Buffer, memory, vector, string, combined) every transfer moves exactly the reported number of bytes: nothing is lost, repeated or reordered when the source returns short reads, the sink accepts short writes or refuses, or a limit is given; size() always equals the bytes still to be read. read()/write() of a fixed count either transfer all of it or throw when the source ends or the sink is full; read_enough_data() and peek() never consume or invent data.",
['schedules','inputs','histories'],
"every history of reads, writes, peeks, undos, bounded and unbounded transfers over any capacity and any pattern of short reads and writes by the other side",
"Existing tests use streams only on the parsers' whole inputs; short writes and circular wrap-around under a limiting sink are never exercised.",
[N+'streams.hpp',N+'streams.hxx'],
[('Buffer::read_from / write_to / did_read / did_write',N+'streams.hxx'),('IMemoryStream/IVectorStream/IStringStream::write_to',N+'streams.hxx'),('CombinedIStream',N+'streams.hpp')],
[],['bytes at both ends','size()'])

prop('C16','HTTP server serves every pipelined request once, in order, however it is split',
"Each well-formed request a client sends on a kept-alive connection is handed to the request handler exactly once, in order, with the method, path, query, headers and body that were sent, however the bytes are split or merged on the wire; the next request is not handed over before the previous response is complete, and responses leave in request order, one per request. When the response is postponed and written later, or is limited by back-pressure, or streamed, further requests (already received or not) are still served without needing any new bytes from the client.",
['schedules','inputs','fault_sequences'],
"every segmentation and timing of any pipeline of requests on any number of connections, immediate, postponed and streamed responses, every back-pressure pattern",
"Parser tests feed whole messages to the parser; no test runs the server, so state carried between requests and wake-ups after late responses are never exercised.",
[H+'connection.hxx',H+'server.hxx',H+'request_parser.hxx'],
[('ServerConnection::advance_state / read_next',H+'connection.hxx'),('Server::on_client_handler loop',H+'server.hxx')],
[('ServerConnection::state, read_buffer','request/response phase and unread bytes',H+'connection.hpp')],
['requests seen by the handler','bytes on the client side'])

prop('C17','Responses are framed exactly; keep-alive, close and streaming are honoured',
"What the client receives for each response is one well-formed HTTP message: the status and headers given, exactly the body bytes written (by content length or as chunks), and the connection persistence the request asked for; HTTP/1.0 or 'connection: close' requests get their complete response and then end-of-stream, others keep the connection. Streaming handlers are called again when more can be written, get_body_position() counts exactly the body bytes written so far, and BUFFER_ONLY writes are sent by the next flushing write.",
['schedules','inputs','fault_sequences'],
"every way of writing a response (whole, streamed with length, streamed in chunks, moved or copied pieces, empty pieces), every size, every back-pressure pattern, both HTTP versions and connection headers",
NOTEST+"framing errors appear only for particular piece sizes combined with short writes.",
[H+'connection.hxx',H+'server.hxx',H+'types.hxx'],
[('ServerConnection::write family and write_last_chunk',H+'connection.hxx'),('Client::write / start_write_stream',H+'server.hxx')],
[('remaining_body_content_length','bytes still owed',H+'connection.hpp')],
['client byte stream parsed by an independent parser'])

prop('C18','An HTTP client request ends in exactly one response or one error',
"Each request sent with ClientRequestSimple results in exactly one call: the response handler with the server's exact status, headers and body however split on the wire, or the error handler if the name does not resolve, connecting fails, the peer closes or resets before the response is complete, or the response is malformed; after cancel() neither is called. A response is never matched to an earlier or later request; the connection is reused for the next request to the same host, port and protocol while kept open (about 10 seconds), a new one is opened otherwise, and the object stays usable after every outcome.",
['schedules','fault_sequences','histories'],
"every sequence of sends and cancels (also inside handlers), every resolve/connect outcome, every segmentation, close or reset point, malformed responses",
NOTEST+"exactly-once delivery depends on where in the exchange the failure lands.",
[H+'client_request.hxx',H+'connection.hxx',H+'response_parser.hxx'],
[('ClientRequestSimple::send / on_connection / on_connection_close',H+'client_request.hxx'),('ClientConnection::advance_state / dns_handler',H+'connection.hxx')],
[('ClientRequestSimple::requesting','request in flight',H+'client_request.hpp')],
['handler calls per request'])

prop('C19','WebSocket data messages arrive intact, once, in order, in both directions',
"After an upgrade every text or binary message written by either side is delivered to the other side exactly once, in order, with the same type and bytes, whatever its size (all three length encodings), masking, fragmentation into frames, interleaved control frames, streaming in pieces, and splitting of the bytes on the wire. A fresh connection on a reused object never sees data of the previous session, and messages sent together with or right after the upgrade are not lost.",
['schedules','inputs','fault_sequences'],
"every sequence of messages and fragmentations, sizes, masking keys, segmentation and back-pressure patterns, server and client roles",
"The only WebSocket fuzz target no longer compiles and nothing else covers it.",
[H+'connection.hxx',H+'web_message_parser.hxx',H+'web_message_parser.hpp',H+'server.hxx'],
[('WebMessageHeaderParser / WebMessageBodyParser / mask_data',H+'web_message_parser.hxx'),('advance_state WEB_MESSAGE_* states',H+'connection.hxx')],
[('web_message','message being assembled from fragments',H+'connection.hpp')],
['messages at both ends against a reference codec'])

prop('C20','WebSocket control frames: pong, keep-alive ping, close and violations',
"Every ping is answered by a pong with the same payload, pings, pongs and other control frames are never delivered as messages and never disturb a message in progress; a server connection that writes nothing for about 45 seconds sends a ping, and keeps doing so. A close frame is delivered once with its code and reason; sending close lets earlier messages out first and then ends the stream. Malformed frames (bad opcodes, reserved bits, over-long or fragmented control frames, stray or missing continuations, text that is not UTF-8) end the connection and are never delivered as messages.",
['schedules','inputs','fault_sequences'],
"every placement of control frames relative to data frames and segmentation, every idle period, every kind of malformed frame at every position",
"No test covers WebSocket behaviour; the ping timer needs 45 simulated seconds.",
[H+'connection.hxx',H+'web_message_parser.hxx',H+'server.hxx'],
[('on_wm_ping_timer',H+'connection.hxx'),('advance_state control-frame handling',H+'connection.hxx')],
[('wm_ping_timer','server-side keep-alive',H+'connection.hpp')],
['frames on the wire','ws handler calls'])

prop('C21','Malformed, oversized or truncated traffic is contained to its own connection',
"Whatever bytes a peer sends (garbage, over-long headers, chunk headers or trailers, bad lengths, truncation at any point, resets), the library neither crashes nor accesses invalid memory nor throws out of the loop, no malformed or incomplete request reaches the handler, and the offending connection is closed within a bounded time. A request header above 8192 bytes is rejected with bounded buffering, a claimed length does not make the library allocate more than a small fixed amount (64 KB) before the bytes arrive, and other connections to the same server continue to be served correctly meanwhile. The same holds for clients and web socket clients of hostile servers.",
['inputs','schedules','fault_sequences'],
"every byte sequence (mutations of valid traffic included) in every segmentation, every truncation or reset point, concurrently with well-behaved clients",
"The corpus replay feeds 1213 fixed files to bare parsers in one piece; server state, segmentation and isolation between connections are not covered.",
[H+'request_parser.hxx',H+'connection.hxx',H+'server.hxx',H+'web_message_parser.hxx'],
[('exception handler of advance_state: write_shutdown',H+'connection.hxx'),('max_total_length limits',H+'request_parser.hxx')],
[],['handler calls','connection close times','other clients\' responses'])

prop('C22','max_connections holds, and every disconnect is reported to its owner once',
"The server never serves more than max_connections connections at a time (at most one more is accepted early and kept waiting), connections beyond the limit wait and are accepted as soon as earlier ones end, without needing new arrivals. When a client disconnects, each interest registered on it (postponed response, stream, or web socket handler) is notified exactly once with the connection closed, before the Client object disappears; the web socket handler sees exactly one close message whether the peer, the server, or a failure ended it.",
['schedules','fault_sequences','histories'],
"every arrival and departure order of connections, every disconnect kind at every phase of a request",
NOTEST+"depends on the order of disconnects and new arrivals.",
[H+'server.hxx',H+'server.hpp'],
[('Server::accept_all / on_client_disconnected',H+'server.hxx')],
[('Server::clients','live connections',H+'server.hpp')],
['simulated accepted connections','handler calls per Client'])

prop('C23','A throwing request handler costs one error response, never the server',
"If the request handler throws before answering, the client gets exactly one response: 401 with a WWW-Authenticate header for ErrorAuthorization, 422 with the message as text otherwise; the connection and the server keep serving later requests. If it throws after it has written its response, no second response is sent; if a web socket handler throws, the client gets a close frame with status 1011 and the message; no exception of these handlers ever leaves the loop.",
['inputs','schedules','histories'],
"every point at which a handler throws relative to what it has written, pipelined and concurrent requests, any message text and length",
NOTEST+"the outcome depends on connection state when the exception is thrown.",
[H+'server.hxx'],
[('Server::on_client_handle_request / on_client_handle_message',H+'server.hxx')],
[],['client byte stream'])

prop('C24','The Date header is always present, well-formed and at most about a second stale',
"Every response the server writes carries exactly one Date header in the HTTP date format giving the wall-clock time of the response, stale by no more than about half a second plus the one second resolution of the format, unless the handler set its own; wall-clock jumps are followed within the same bound, also on several loops in several threads.",
['histories','schedules'],
"every pattern of request times and wall-clock jumps",
NOTEST+"staleness is a statement about time.",
[H+'server.hxx'],
[('Server::get_date cache',H+'server.hxx')],
[('TimeCache','per-thread cached date',H+'server.hpp')],
['Date header against the simulated wall clock'])

prop('C25','Cross-thread API is free of data races',
"Programs that use only the documented cross-thread calls (Watcher::call, RunLoop::cancel, crab::Thread construction, cancel and destruction, and DNSResolver with loops in several threads) cause no data race inside the library: every two conflicting accesses from different threads are ordered by synchronisation the library itself performs.",
['schedules'],
"every interleaving of the documented cross-thread calls with loop threads and the DNS worker",
NOTEST+"a race corrupts memory only in rare interleavings.",
[N+'network.hxx',N+'network_posix.hxx'],
[('RunLoopLinks::mutex',N+'network.hpp'),('DNSWorker::dns_mutex',N+'network.hxx'),('Thread::mu',N+'network.hpp')],
[],['happens-before detector (ThreadSanitizer runtime) driven by the simulated schedule'])

prop('C26','A peer that does not read cannot make the library buffer or serve ever more',
"While output for a peer waits in the library because the peer does not read, the HTTP server and web socket connections (server and client side) read nothing more from that peer and hand over nothing more from it: no further request, and at most two web socket messages received before. No request or message is handed over while the response or message before it is still being written, and can_write() tells a streaming handler to stop as soon as the socket is full, so what is buffered for one connection stays bounded by one answer (and pongs already asked for). As soon as the peer reads again everything continues where it stopped, in order, with nothing lost.",
['schedules','inputs','fault_sequences'],
"every pattern of pipelined requests, messages and pings and of pauses in reading, every buffer size and response style",
NOTEST+"it shows only when the peer's window and the socket buffer are full.",
[H+'connection.hxx',H+'server.hxx'],
[('advance_state: nothing is processed while get_total_buffer_size() != 0',H+'connection.hxx'),('can_write',H+'connection.hpp')],
[('BufferedTCPSocket::total_data_to_write','bytes waiting for the socket',H+'connection.hpp')],
['bytes the library reads and hands to the kernel','handler calls','get_total_buffer_size()'])

# ---- not applicable to this technique: pure functions of their input
pure="Pure function of its input: no schedule, clock, fault or history is involved."
prop('C30','Digests, checksums and encodings match their standards',
"MD5, SHA-1, SHA-256/512, HMAC, CRC-32 and base64 give the standard result for every input, however the input is divided into add() calls, and base64 decode inverts encode and rejects malformed text.",
['inputs'],"every byte string and every division into pieces","test_crypto checks a handful of fixed vectors.",['include/crab/crypto/'],[('md5/sha/crc32/base64','include/crab/crypto')])
prop('C31','integer_cast never returns a value that differs from its input',
"integer_cast converts an integer or decimal string to another integer type exactly, or throws; it never wraps, truncates or accepts junk.",
['inputs'],"every value, type pair and string","test_atoi samples random values.",[N+'integer_cast.hpp'],[('integer_cast',N+'integer_cast.hpp')])
prop('C32','URI, query, cookie and content-type parsing follow their grammars',
"parse_uri, query string, cookie, content-type and basic authorization parsing accept exactly the valid inputs and decode them as the standards say; multipart form data is split exactly.",
['inputs'],"every string","tests use a fixed list (one of which fails at the pinned commit).",[H+'query_parser.hxx',H+'types.hxx'],[('query_parser',H+'query_parser.hxx')])
prop('C33','Request and response headers survive a to_string/parse round trip',
"Every valid request or response header object serialised by to_string() and parsed back gives the same header.",
['inputs'],"every header object","tests check fixed messages.",[H+'types.hxx',H+'request_parser.hxx',H+'response_parser.hxx'],[('to_string',H+'types.hxx')])
prop('C34','Address parsing and printing are inverse and classify correctly',
"Address::parse accepts exactly numeric IPv4/IPv6 addresses, get_address()/get_port()/to_string() give back the same, and is_local/is_multicast classify correctly.",
['inputs'],"every string","no test covers it.",[N+'network_posix_win.hxx'],[('Address::parse',N+'network_posix_win.hxx')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
