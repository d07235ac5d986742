"""Which scenarios decide which property."""
REAL = ["all of crab's library sources, compiled unmodified from /repo (src/crab.cpp: run loop, timers, watchers, sockets, DNS worker, buffers, streams, HTTP and WebSocket parsers, connections, client requests, server)",
        "libstdc++ containers, std::thread objects (scheduled one at a time by the simulator)"]
STUBS = ["Linux kernel: epoll, eventfd, signalfd, TCP, UDP, accept queue, signals, clocks (simulated)",
         "pthread mutexes and condition variables, static-initialisation guards (simulated)",
         "getaddrinfo (simulated), std::random_device (seeded)", "network peers that are not crab objects (scripted)"]
CHECKS = {}


def check(prop, rule, scenarios, **kw):
    CHECKS[prop] = dict(rule=rule, scenarios=scenarios, **kw)


def S(name, file=None, **kw):
    return dict(name=name, file=file or name + ".cpp", **kw)


check("C01", "each seed generates a timer program (arming, moving, cancelling, destroying timers from handlers, by relative and absolute time) under a random fault mix; non-trivial = at least one timer fired and at least one was re-armed, cancelled or destroyed while set",
      [S("timers")], how="timer histories against a model")

check("C03", "each seed runs up to three threads calling up to four watchers of one loop, with calls and cancels from handlers, preempted at system calls and between any two instrumented memory accesses; non-trivial = at least one handler run caused with another thread alive",
      [S("watchers", variant="fine")], how="seeded thread schedules at memory-access granularity")

check("C06", "each seed runs one to three connections (crab-crab, crab-raw either way) moving patterned byte streams both ways through random reading and writing calls, under short reads and writes, EAGAIN, tiny windows, stalls and epoll faults; non-trivial = at least one byte moved end to end",
      [S("tcp_stream", file="tcp.cpp")], how="byte-pattern streams, readiness liveness")
check("C07", "each seed drives up to four reused sockets through sessions with scripted peers (graceful end, close, reset, silence), refused, timed out and immediately failing connects and failing system calls; non-trivial = at least one session reported closed",
      [S("tcp_life", file="tcp.cpp")], how="session histories with scripted peers and failing system calls")

check("C09", "each seed sends bursts of clients to an acceptor whose user accepts all, some or later, under transient errors, resource limits, odd errors and descriptor exhaustion periods; non-trivial = at least two connections accepted",
      [S("acceptor")], how="accept bursts under injected accept errors and descriptor exhaustion")

check("C04", "each seed runs either rounds of run()/cancel() with the cancel coming from another thread or a handler, or rounds of crab::Thread construction, cancels and destruction, preempted at system calls and between instrumented memory accesses; non-trivial = at least one round completed",
      [S("loop_cancel", file="loop.cpp", variant="fine")], how="seeded thread schedules at memory-access granularity")
check("C05", "each seed generates activations, deactivations and destructions of up to five idles mixed with timers, a watcher, incoming data and slow handlers; non-trivial = idle and other handlers both ran",
      [S("idles", file="loop.cpp")], how="idle histories against a fairness and sleep model")

check("C08", "each seed builds, uses and destroys loops, acceptors, sockets, datagram sockets and signals while the k-th (or a random share) of the fallible system calls fails, or descriptors run out; non-trivial = at least one call failed by injection or one constructor threw",
      [S("fds")], how="k-th failing system call against a descriptor table")

check("C10", "each seed drives up to three buffered sockets through sessions of random write/buffer/write_some calls against peers with tiny windows, stalls and endings; non-trivial = at least one byte was accepted",
      [S("buffered")], how="byte-exact output model against a scripted peer")
check("C11", "each seed drives up to three buffered sockets to write_shutdown at a random moment (connecting, with data pending, inside a handler), the peer finishing, talking on, stalling, resetting or staying silent; non-trivial = at least one shutdown was asked",
      [S("buffered_shutdown", file="buffered.cpp")], how="shutdown histories against a timing model")

check("C12", "each seed sends waves of datagrams (0 to 65507 bytes) to and from up to four datagram sockets under loss, duplication, reordering, receive errors, ICMP errors and send-buffer exhaustion, reading into full, short and empty buffers; non-trivial = a datagram was read or a write was refused",
      [S("udp")], how="datagram histories against the simulated queues, wave by wave")

check("C13", "each seed runs up to nine resolvers on up to three loops, resolving, re-resolving, cancelling and destroying (in handlers too) while the worker thread waits for slow, failing and instant lookups, preempted at system calls and between instrumented memory accesses; non-trivial = at least one answer delivered",
      [S("dns", variant="fine")], how="seeded thread schedules at memory-access granularity against a request model")

check("C14", "each seed raises signals from threads, handlers and the kernel at up to three Signal objects that are created, destroyed (in handlers too) and given new handlers; non-trivial = at least one handler run",
      [S("signals")], how="signal histories against a merge-but-never-lose model")

check("C15", "each seed runs a program of reads, writes, transfers, peeks, moves and clears over up to four streams of all kinds (odd capacities, wrapped and nested) against sources and sinks that deliver short, stall, refuse or throw; non-trivial = at least one byte moved",
      [S("streams")], how="stream programs between flaky sources and sinks, against plain strings", quick_s=12)

check("C16", "each seed sends one to three clients with up to eight requests each (all framings, spellings and depths of pipelining, split anywhere) to handlers that answer at once, later, from other handlers or by streaming, with slow readers and short reads and writes; non-trivial = requests were pipelined and answered",
      [S("http_pipeline", file="http_server.cpp")], how="request histories against scripted pipelining clients with an independent parser")
check("C17", "each seed sends requests of both versions and persistences to handlers that answer whole or stream by length or chunks through all write variants, against slow readers and short writes; non-trivial = at least one response",
      [S("http_framing", file="http_server.cpp")], how="responses decoded by an independent strict parser")

check("C22", "each seed sends up to eight clients to a server limited to one to four connections (or not limited), the clients leaving at any moment (finished, half-closed, closed, reset, in the middle of a request) while responses are postponed, held forever or streamed; non-trivial = a disconnect was notified or the limit was exceeded by the arrivals",
      [S("http_limits", file="http_server.cpp"), S("ws_ends", file="ws.cpp")], how="arrival and disconnect histories against a limit and notification model")
check("C23", "each seed mixes ordinary handlers with ones that throw before answering, after answering, while streaming or after postponing, over pipelined requests; non-trivial = a handler threw",
      [S("http_throw", file="http_server.cpp"), S("ws_throw", file="ws.cpp")], how="throwing handlers against scripted pipelining clients")
check("C24", "each seed runs servers on one to three loops in as many threads for minutes of simulated time, with idle periods and wall-clock jumps from a millisecond to a year either way; non-trivial = at least one response",
      [S("http_date", file="http_server.cpp")], how="simulated wall clock with jumps, every Date header checked")

check("C19", "each seed runs up to six sessions between a crab server and scripted clients, a crab client (reused) and scripted servers, or both crab, with up to eight messages each way (0 to 150000 bytes, whole, fragmented or streamed, sent before, with and after the upgrade) and ends at a random moment or after everything arrived; non-trivial = at least one message sent",
      [S("ws_messages", file="ws.cpp")], how="message histories with an independent frame codec at the other end")
check("C20", "each seed mixes pings, pongs and other control frames into message traffic, then idles for up to minutes, then ends by a close frame of either side, a bad handshake or one of nine protocol violations; non-trivial = every run",
      [S("ws_control", file="ws.cpp")], how="control-frame histories, simulated idle time and protocol violations")

check("C18", "each seed sends up to thirty requests through one to three reused client objects (also from their own handlers) to scripted servers that answer exactly, cut, malform, withhold or follow up their responses, over names and ports that may not resolve or connect; non-trivial = at least one response delivered",
      [S("client")], how="request histories against scripted servers with an exact response model")

check("C21", "each seed mixes well-behaved clients with up to eight others that send malformed, truncated, endless or mutated requests and web socket frames (after valid ones, in pieces, finishing, closing, resetting or waiting), or a crab client with servers that do so; non-trivial = at least one request served",
      [S("malformed"), S("malformed_ws_client", file="malformed.cpp"), S("client_fuzz", file="client.cpp")], how="hostile byte streams beside well-behaved clients")

check("C02", "each seed runs up to seventeen objects of all kinds (timers, watchers, idles, sockets, buffered sockets, acceptors, datagram receivers, resolvers, client requests, client connections) whose handlers arm, cancel, close, destroy and recreate random objects, themselves included, while several events are ready at once; non-trivial = at least one handler ran",
      [S("lifetime")], how="random operations on all loop objects from all handlers, under AddressSanitizer")

check("C25", "each seed runs up to four loops (the main thread's and crab::Thread ones), each with watchers, timers, resolvers, sometimes an HTTP server and clients talking to each other, and up to three more threads that call watchers and cancel loops; preempted at system calls and lock operations; non-trivial = a watcher handler ran with more than one thread alive",
      [S("races", variant="tsan")], how="ThreadSanitizer's happens-before detector driven by seeded thread schedules")

check("C26", "each seed connects up to three scripted peers (pipelining HTTP clients, web socket clients, web socket servers of a crab client) that send up to eighty requests or messages and pings and do not read for milliseconds to minutes at a time, through small buffers; non-trivial = output to some peer waited for more than a second while more of it was there to be served",
      [S("backpressure")], how="peers that do not read, with the library's reads, handovers and buffered bytes watched at every epoll_wait")

PURE = "a pure function of its input: there is no schedule, clock, fault, interleaving or multi-step history for a simulator to control"
NOT_APPLICABLE = {"C30": PURE, "C31": PURE, "C32": PURE, "C33": PURE, "C34": PURE}
