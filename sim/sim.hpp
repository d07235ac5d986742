// Deterministic simulator: one process, one choice stream, a simulated kernel under the crab library.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>

namespace sim {
typedef int64_t i64;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
constexpr i64 US = 1000, MS = 1000000, SEC = 1000000000LL;

// ---------------------------------------------------------------- choices
// Everything random is drawn here and recorded; replay feeds the recorded values back. 0 is the simplest choice.
size_t max_alloc();                      // the largest single allocation so far (asan variants)
u32 choose(u32 n);                       // uniform in [0, n)
bool chance(u32 permille);               // no draw at all when permille is 0
i64 range(i64 lo, i64 hi);               // uniform, lo is the simplest
size_t size_log(size_t lo, size_t hi);   // log-uniform size, lo is the simplest
u32 weighted(std::initializer_list<u32> w);
template<class T>
const T &pick(const std::vector<T> &v) { return v[choose(u32(v.size()))]; }
u64 stable_random();                     // unrecorded stream, seeded once by a recorded choice (random_device, payloads)

// ---------------------------------------------------------------- log, probes, verdicts
void ev(const char *op, i64 a = 0, i64 b = 0, i64 c = 0);  // hashed, and printed in verbose replay
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // verbose only, never hashed
bool verbose();
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define SIM_CHECK(cond, cls, ...)            \
	do {                                     \
		if (!(cond)) ::sim::fail(cls, __VA_ARGS__); \
	} while (0)
int probe_register(const char *name);
void probe_hit(int id);
#define PROBE(name)                                  \
	([] {                                            \
		static int probe_id__ = -1;                  \
		if (probe_id__ < 0)                          \
			probe_id__ = ::sim::probe_register(name); \
		::sim::probe_hit(probe_id__);                \
	}())
void nontrivial();  // marks this run as one in which the property was really exercised

// ---------------------------------------------------------------- faults
enum Fault {
	F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_EPOLL_PARTIAL, F_EPOLL_REORDER, F_LATE_WAKE,
	F_SHORT_READ, F_SHORT_WRITE, F_SEND_EAGAIN,
	F_ACCEPT_LIMIT, F_ACCEPT_ABORT, F_ACCEPT_EINTR, F_ACCEPT_ODD,
	F_CONNECT_REFUSED, F_CONNECT_TIMEOUT, F_CONNECT_FAIL_NOW, F_CONNECT_IMMEDIATE,
	F_SYSCALL_FAIL, F_PEER_RESET, F_PEER_FIN, F_PEER_STALL,
	F_UDP_LOSS, F_UDP_DUP, F_UDP_REORDER, F_UDP_ICMP, F_UDP_EAGAIN, F_UDP_RXERR,
	F_CLOCK_JUMP, F_SLOW_HANDLER, F_CV_SPURIOUS, F_PREEMPT, F_DNS_FAIL, F_SIGNAL, F_RCV_WINDOW, F_EARLY_EVENT,
	F_COUNT
};
extern const char *fault_names[F_COUNT];
extern u32 fault_rate[F_COUNT];     // permille, 0 = off
void set_fault(Fault f, u32 permille);
void swarm(std::initializer_list<Fault> fs);  // random subset of fs at random rates
bool fault(Fault f);                // draws, counts when it fires
void count_fault(Fault f);          // a fault injected by the scenario itself
void stop_faults();                 // all rates to 0

// ---------------------------------------------------------------- time and scheduling
i64 now();                 // monotonic ns
i64 wall();                // wall clock ns
void wall_jump(i64 delta);
void at(i64 t, std::function<void()> f);      // kernel-context event; must not call crab
inline void after(i64 d, std::function<void()> f) { at(now() + d, std::move(f)); }
void drop_events();         // forgets everything pending: call before harness state is torn down
void busy(i64 d);          // the calling thread burns d of simulated time
extern i64 busy_total;     // all time during which the loop thread was not waiting (handlers, syscalls, late wakes)
struct Stop {};            // thrown out of epoll_wait on the main thread
void stop_at(i64 t);       // main thread's epoll_wait throws Stop once now >= t
void stop_when(std::function<bool()> pred);   // ... or once pred() holds at an epoll_wait entry
int thread_id();           // 0 = main
int live_threads();
void yield();              // explicit preemption point
void spawn(std::function<void()> f);          // harness thread under the scheduler; joined by join_all()
void join_all();
void exit_process();        // runs the static destructors registered during the run, as returning from main() would
extern std::function<void(int epfd, int timeout_ms)> on_epoll_enter;  // observation hook, before blocking
extern std::function<void()> on_epoll_leave;
extern std::function<void()> on_deadlock;     // default: fail("deadlock")
u64 calls_of(const char *op);  // wrapped calls of one kind so far
u64 epoll_calls();         // number of epoll_wait calls so far, all threads
u64 epoll_nonblocking_calls();

struct Config {
	i64 net_lat_min = 0, net_lat_max = 0;   // one-way latency per delivery
	int seg_mode = 0;                       // 0 whole, 1 random pieces, 2 tiny pieces, 3 mixed
	size_t sndbuf = 65536, rcvbuf = 65536;  // of crab side sockets
	i64 syscall_cost = 0;
	u32 interleave = 0;                     // permille: a pending kernel event happens between two syscalls
	u32 fd_limit = 1u << 30;
	u32 preempt = 0;                        // permille at each wrapped call
	u32 fine_preempt = 0;                   // mean basic blocks/accesses between forced preemptions, 0 = off
	u64 bb_limit = 400000000ULL;
	u64 step_limit = 400000;                // wrapped calls per run
	i64 dns_min = 0, dns_max = 0;
	i64 orphan_dead_after = 60 * SEC;       // unsent data of a closed socket is dropped after this
};
extern Config cfg;
void random_net_config();  // draws latency, segmentation, buffers, costs

// ---------------------------------------------------------------- raw peers (not crab)
struct Conn;
struct RawConn : std::enable_shared_from_this<RawConn> {
	std::string in;                // everything received and read so far
	bool got_fin = false, got_rst = false, connected = false, connect_failed = false;
	int connect_errno = 0;
	bool reading = true;           // false: the window closes once rcvbuf is full
	std::function<void()> on_event;  // any change: data, fin, reset, connected, connect failure
	u64 sent = 0;
	int local_port = 0, remote_port = 0;
	void send(const std::string &s);
	void fin();                    // shutdown(SHUT_WR)
	void close();                  // full close (RST when unread data is present, as Linux does)
	void reset();                  // RST now
	void set_reading(bool r);
	void set_rcvbuf(size_t s);
	size_t unsent() const;         // bytes given to send() that have not reached the other side's queue
	u64 peer_sent() const;         // bytes the other side's kernel accepted from its program
	u64 peer_read() const;         // bytes the other side's program has read
	bool peer_closed() const;      // the other side's descriptor was closed
	bool peer_shut() const;        // the other side called shutdown(SHUT_WR) or closed
	bool open() const { return !closed && !got_rst; }
	bool closed = false;
	std::shared_ptr<Conn> conn;
	int side = 0;
};
typedef std::shared_ptr<RawConn> RawPtr;
RawPtr raw_connect(int port, i64 delay = 0);  // connects to a listening port
void raw_listen(int port, std::function<void(RawPtr)> on_accept);
void raw_unlisten(int port);
std::string peek_rcvq(int fd);               // bytes waiting in the receive queue of a crab side socket

// kernel inspection
int open_fd_count();
std::vector<int> open_fds(const char *kind = nullptr);
bool fd_is_open(int fd);
size_t listen_backlog(int port);             // connections waiting in the accept queue
int established_count(int port);             // accepted and not yet closed by the library, on this listening port
u64 accepted_total(int port);
void udp_raw_send(int from_port, int to_port, const std::string &d);  // datagram from a non-crab host
struct UdpRecv { std::string data; int from_port, to_port; };
void udp_raw_bind(int port, std::function<void(const UdpRecv &)> f);
void udp_icmp_error(int to_port, int err);   // pending error on the crab socket bound/connected to that port
struct UdpSent { std::string data; int from_port, to_port; u64 id; int fd; };
extern std::vector<UdpSent> udp_sent;        // datagrams handed to the kernel by crab
struct UdpIn { std::string data; int from_port; int fd; };
extern std::vector<UdpIn> udp_queued;        // datagrams put into a crab socket's receive queue, in order
size_t udp_rcvq(int fd);
void raise_signal(int sig);                  // kernel delivers a process directed signal
bool signal_masked(int sig);                 // in the calling thread
extern int fatal_signals;                    // signals that arrived while unmasked (would kill the process)
struct DnsAnswer { bool ok = true; std::vector<std::pair<std::string, int>> addrs; i64 delay = 0; };  // addr text, family 4/6
extern std::function<DnsAnswer(const std::string &host, int family, int port)> dns_model;

// failing system calls: the k-th fallible call from now fails (fault enumeration), or by F_SYSCALL_FAIL rate
void fail_kth_syscall(i64 k);                // -1: off
u32 fault_count(Fault f);                    // injected so far in this run
i64 fallible_calls();                        // fallible calls made so far (to know the range)

// ---------------------------------------------------------------- scenarios
struct Scenario {
	const char *name;
	void (*fn)();
	Scenario(const char *name, void (*fn)());
};
#define SCENARIO(id)                                         \
	static void scenario_fn_##id();                          \
	static ::sim::Scenario scenario_reg_##id(#id, scenario_fn_##id); \
	static void scenario_fn_##id()
}  // namespace sim
