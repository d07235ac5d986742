// Simulated kernel, scheduler and choice stream. Compiled without instrumentation.
#include "internal.hpp"
#include <arpa/inet.h>
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <mutex>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <random>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <thread>
#include <unistd.h>

#ifdef SIM_TSAN
extern "C" void __tsan_acquire(void *);
extern "C" void __tsan_release(void *);
extern "C" void __tsan_ignore_thread_begin();
extern "C" void __tsan_ignore_thread_end();
#define HB_ACQ(p) __tsan_acquire((void *)(p))
#define HB_REL(p) __tsan_release((void *)(p))
#define TS_IGN() __tsan_ignore_thread_begin()
#define TS_UNIGN() __tsan_ignore_thread_end()
#else
#define HB_ACQ(p) ((void)0)
#define HB_REL(p) ((void)0)
#define TS_IGN() ((void)0)
#define TS_UNIGN() ((void)0)
#endif

namespace sim {
const char *fault_names[F_COUNT] = {"epoll_eintr", "epoll_spurious_event", "epoll_partial_batch", "epoll_reorder", "late_wake",
    "short_read", "short_write", "send_eagain", "accept_limit", "accept_aborted", "accept_eintr", "accept_odd_error",
    "connect_refused", "connect_timeout", "connect_fail_now", "connect_immediate", "syscall_fail", "peer_reset", "peer_fin",
    "peer_stall", "udp_loss", "udp_dup", "udp_reorder", "udp_icmp", "udp_eagain", "udp_rx_error", "wall_clock_jump",
    "slow_handler", "cv_spurious", "preemption", "dns_fail", "signal", "recv_window_full", "event_between_syscalls"};
u32 fault_rate[F_COUNT];
Config cfg;
Shared *shared;
bool replaying;
std::vector<u32> replay_choices;
u64 run_seed;
std::string *trace_out;
u32 guard_count;
i64 busy_total;
int fatal_signals;
std::function<void(int, int)> on_epoll_enter;
std::function<void()> on_epoll_leave;
std::function<void()> on_deadlock;
std::vector<UdpSent> udp_sent;
std::vector<UdpIn> udp_queued;
std::function<DnsAnswer(const std::string &, int, int)> dns_model;

static std::vector<Scenario *> &scen() {
	static std::vector<Scenario *> *v = new std::vector<Scenario *>;
	return *v;
}
const std::vector<Scenario *> &scenarios() { return scen(); }
Scenario::Scenario(const char *name, void (*fn)()) : name(name), fn(fn) { scen().push_back(this); }
// ------------------------------------------------------------------ internals
static bool active = false;  // inside a simulated run (child)
static u64 prng_s, stable_s;
static u32 choice_pos;
static i64 now_ns, wall_off;
static u64 hash_, shape_, steps_, switches_;
static volatile u64 bb_;
static i64 fine_countdown;
static u64 epoll_calls_, epoll_nb_calls_;
static i64 stop_time = INT64_MAX;
static std::function<bool()> stop_pred;
static i64 kth_fail = -1, fallible_ = 0;
static u64 event_seq;
static std::map<std::pair<i64, u64>, std::function<void()>> *events;
static bool in_event;

struct Thr {
	u64 unswitched = 0, last_run = 0;
	int id;
	std::atomic<int> go{0};
	bool finished = false, blocked = false, detached = false;
	std::function<bool()> pred;
	i64 deadline = INT64_MAX;
	int in_sim = 0;
	u64 sigmask = 0;
	std::unique_ptr<std::thread::_State> state;
	std::function<void()> fn;
	pthread_t handle{};
};
static std::vector<Thr *> *thrs;
static Thr *cur;
static std::vector<Thr *> *harness_thrs;

struct K {  // inside the simulator: no preemption from instrumentation
	K() { TS_IGN(); if (cur) cur->in_sim++; }
	~K() { if (cur) cur->in_sim--; TS_UNIGN(); }
};

static inline u64 splitmix(u64 &s) {
	u64 z = (s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
static inline void mix(u64 &h, u64 v) {
	h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdULL;
	h ^= h >> 32;
}

static void finish(int status) {
	Result &r = shared->r;
	r.hash = hash_;
	r.shape = shape_;
	r.sim_ns = now_ns - 1000 * SEC;
	r.steps = steps_;
	r.bb = bb_;
	r.switches = switches_;
	r.status = status;
	_exit(0);
}
bool verbose() { return trace_out != nullptr; }
void note(const char *fmt, ...) {
	if (!trace_out)
		return;
	char buf[2000];
	int n = snprintf(buf, sizeof buf, "%14.6f T%d   ", double(now_ns) / 1e9, cur ? cur->id : 0);
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf + n, sizeof buf - n, fmt, ap);
	va_end(ap);
	fprintf(stderr, "%s\n", buf);
}
void ev(const char *op, i64 a, i64 b, i64 c) {
	u64 h = 1469598103934665603ULL;
	for (const char *p = op; *p; p++)
		h = (h ^ (u8)*p) * 1099511628211ULL;
	u64 tid = cur ? cur->id : 0;
	mix(hash_, h ^ (tid << 56));
	mix(hash_, (u64)a);
	mix(hash_, (u64)b * 31 + (u64)c);
	mix(hash_, (u64)now_ns);
	mix(shape_, h ^ (tid << 56));
	mix(shape_, (u64)b * 131 + (u64)a);
	if (trace_out)
		fprintf(stderr, "%14.6f T%d %s %lld %lld %lld\n", double(now_ns) / 1e9, (int)tid, op, (long long)a, (long long)b, (long long)c);
}
void fail(const char *cls, const char *fmt, ...) {
	Result &r = shared->r;
	snprintf(r.cls, sizeof r.cls, "%s", cls);
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(r.msg, sizeof r.msg, fmt, ap);
	va_end(ap);
	if (trace_out)
		fprintf(stderr, "%14.6f VIOLATION [%s] %s\n", double(now_ns) / 1e9, r.cls, r.msg);
	finish(2);
	abort();
}
void harness_error(const char *fmt, ...) {
	Result &r = shared->r;
	snprintf(r.cls, sizeof r.cls, "harness");
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(r.msg, sizeof r.msg, fmt, ap);
	va_end(ap);
	finish(3);
	abort();
}
int probe_register(const char *name) {  // names live in shared memory: children register, the parent reports
	for (u32 i = 0; i != shared->nprobes; i++)
		if (!strcmp(shared->probe_name[i], name))
			return int(i);
	if (shared->nprobes >= MAX_PROBES)
		return MAX_PROBES;
	snprintf(shared->probe_name[shared->nprobes], sizeof shared->probe_name[0], "%s", name);
	return int(shared->nprobes++);
}
void probe_hit(int id) {
	if (id < int(MAX_PROBES))
		shared->r.probes[id]++;
}
void nontrivial() { shared->r.nontrivial = 1; }

// ------------------------------------------------------------------ choices
static u32 record(u32 v) {
	Result &r = shared->r;
	if (r.nchoices < MAX_CHOICES)
		r.choices[r.nchoices++] = v;
	else {
		r.overflow = 1;
		fail("spin", "more than %u choices in one run, t=%.6f", MAX_CHOICES, now_ns / 1e9);
	}
	return v;
}
static bool next_replay(u32 &v) {
	if (!replaying)
		return false;
	v = choice_pos < replay_choices.size() ? replay_choices[choice_pos] : 0;
	choice_pos++;
	return true;
}
u32 choose(u32 n) {
	if (n <= 1)
		return 0;
	u32 v;
	if (next_replay(v))
		return record(v % n);
	return record(u32((splitmix(prng_s) >> 11) % n));
}
bool chance(u32 pm) {
	if (pm == 0)
		return false;
	u32 v;
	if (next_replay(v))
		return record(v ? 1 : 0) != 0;
	return record((splitmix(prng_s) >> 11) % 1000 < pm ? 1 : 0) != 0;
}
i64 range(i64 lo, i64 hi) {
	if (hi <= lo)
		return lo;
	u64 span = u64(hi - lo) + 1;
	if (span <= 0xffffffffULL)
		return lo + choose(u32(span));
	// coarse + fine
	u64 unit = span / 1000000 + 1;
	u64 c = choose(1000000);
	u64 f = choose(u32(std::min<u64>(unit, 0xfffffffeULL)));
	u64 v = c * unit + f;
	return lo + i64(v % span);
}
size_t size_log(size_t lo, size_t hi) {
	if (hi <= lo)
		return lo;
	int bits = 0;
	while ((size_t(1) << bits) < hi - lo + 1)
		bits++;
	int b = int(choose(u32(bits + 1)));
	if (b == 0)
		return lo;
	size_t top = std::min<size_t>((size_t(1) << b) - 1, hi - lo);
	return lo + choose(u32(top + 1));
}
u32 weighted(std::initializer_list<u32> w) {
	u32 sum = 0;
	for (auto x : w)
		sum += x;
	u32 v;
	if (next_replay(v))
		return record(v % u32(w.size()));
	u32 x = u32((splitmix(prng_s) >> 11) % (sum ? sum : 1)), i = 0;
	for (auto y : w) {
		if (x < y)
			break;
		x -= y;
		i++;
	}
	return record(i);
}
u64 stable_random() { return splitmix(stable_s); }

// ------------------------------------------------------------------ faults
void set_fault(Fault f, u32 pm) { fault_rate[f] = pm; }
void swarm(std::initializer_list<Fault> fs) {
	static const u32 rates[] = {0, 10, 60, 250};
	if (chance(200))
		return;  // fault-free run
	for (auto f : fs)
		fault_rate[f] = rates[weighted({3, 2, 2, 1})];
}
bool fault(Fault f) {
	if (!fault_rate[f] || !chance(fault_rate[f]))
		return false;
	shared->r.faults[f]++;
	return true;
}
void count_fault(Fault f) { shared->r.faults[f]++; }
void stop_faults() { memset(fault_rate, 0, sizeof fault_rate); }
void fail_kth_syscall(i64 k) { kth_fail = k < 0 ? -1 : fallible_ + k; }
u32 fault_count(Fault f) { return shared->r.faults[f]; }
i64 fallible_calls() { return fallible_; }

// ------------------------------------------------------------------ time
i64 now() { return now_ns; }
i64 wall() { return now_ns + wall_off; }
void wall_jump(i64 d) {
	wall_off += d;
	count_fault(F_CLOCK_JUMP);
	ev("wall_jump", d);
}
void at(i64 t, std::function<void()> f) {
	if (t < now_ns)
		t = now_ns;
	events->emplace(std::make_pair(t, ++event_seq), std::move(f));
}
static void advance_to(i64 t) {
	K k;
	while (!events->empty() && events->begin()->first.first <= t) {
		auto it = events->begin();
		if (it->first.first > now_ns)
			now_ns = it->first.first;
		auto f = std::move(it->second);
		events->erase(it);
		bool was = in_event;
		in_event = true;
		f();
		in_event = was;
	}
	if (t > now_ns)
		now_ns = t;
}
void busy(i64 d) {
	if (d <= 0)
		return;
	busy_total += d;
	ev("busy", d);
	advance_to(now_ns + d);
}
void stop_at(i64 t) { stop_time = t; }
void stop_when(std::function<bool()> p) { stop_pred = std::move(p); }
int thread_id() { return cur ? cur->id : 0; }
int live_threads() {
	int n = 0;
	for (auto t : *thrs)
		n += !t->finished;
	return n;
}
u64 epoll_calls() { return epoll_calls_; }
u64 epoll_nonblocking_calls() { return epoll_nb_calls_; }

// ------------------------------------------------------------------ threads
static void futex_wait(std::atomic<int> *a) {
	while (a->load(std::memory_order_acquire) == 0)
		syscall(SYS_futex, (int *)a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
	a->store(0, std::memory_order_relaxed);
}
static void futex_post(std::atomic<int> *a) {
	a->store(1, std::memory_order_release);
	syscall(SYS_futex, (int *)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static bool can_run(Thr *t) { return !t->finished && (!t->blocked || now_ns >= t->deadline || (t->pred && t->pred())); }
static Thr *pick_next(Thr *me) {
	for (u64 idle_rounds = 0;; idle_rounds++) {
		std::vector<Thr *> c;
		if (me && can_run(me))
			c.push_back(me);
		for (auto t : *thrs)
			if (t != me && can_run(t))
				c.push_back(t);
		if (!c.empty())
			return c[choose(u32(c.size()))];
		i64 next = INT64_MAX;
		if (!events->empty())
			next = events->begin()->first.first;
		for (auto t : *thrs)
			if (!t->finished && t->blocked)
				next = std::min(next, t->deadline);
		if (next == INT64_MAX) {
			if (on_deadlock)
				on_deadlock();
			fail("deadlock", "all %d threads are blocked forever", live_threads());
		}
		advance_to(next);
		if (idle_rounds > 20000000)
			harness_error("event queue never quiesces");
	}
}
static void switch_to(Thr *me, Thr *t);
static void schedule(Thr *me) {
	Thr *t = pick_next(me);
	if (t != me)
		switch_to(me, t);
}
// fairness: a thread that never blocks may not keep the others out for ever
static void fair_switch() {
	if (thrs->size() < 2 || ++cur->unswitched < 150)
		return;
	cur->unswitched = 0;
	Thr *best = nullptr;
	for (auto t : *thrs)
		if (t != cur && can_run(t) && (!best || t->last_run < best->last_run))
			best = t;
	if (best)
		switch_to(cur, best);
}
static void switch_to(Thr *me, Thr *t) {
	t->unswitched = 0;
	t->last_run = switches_ + 1;
	switches_++;
	mix(hash_, 0x5157 + t->id);
	cur = t;
	futex_post(&t->go);
	if (me && !me->finished) {
		futex_wait(&me->go);
		cur = me;
	}
}
static bool block(std::function<bool()> pred, i64 deadline = INT64_MAX) {
	K k;
	if (in_event)
		harness_error("blocking call in a kernel event");
	Thr *me = cur;
	me->pred = std::move(pred);
	me->deadline = deadline;
	me->blocked = true;
	schedule(me);
	me->blocked = false;
	me->deadline = INT64_MAX;
	bool r = me->pred && me->pred();
	me->pred = nullptr;
	return r;
}
static i64 draw_gap() {
	if (!cfg.fine_preempt)
		return INT64_MAX;
	u32 g = choose(cfg.fine_preempt * 2 + 2);
	return g == 0 ? 1000000 : g;
}
void yield() {
	if (!cur || thrs->size() < 2)
		return;
	K k;
	schedule(cur);
}
static void maybe_preempt() {
	if (cfg.preempt && live_threads() > 1 && chance(cfg.preempt)) {
		shared->r.faults[F_PREEMPT]++;
		schedule(cur);
	}
}
static std::map<const char *, u64> *op_counts;
u64 calls_of(const char *op) {
	u64 n = 0;
	for (auto &x : *op_counts)
		if (!strcmp(x.first, op))
			n += x.second;
	return n;
}
static void step(const char *op) {
	// every wrapped call passes here
	(*op_counts)[op]++;
	if (++steps_ > cfg.step_limit)
		fail("spin", "more than %llu system calls in one run, last %s at t=%.6f", (unsigned long long)cfg.step_limit, op, now_ns / 1e9);
	if (in_event)
		harness_error("library call %s inside a kernel event", op);
	if (cfg.syscall_cost) {
		busy_total += cfg.syscall_cost;
		advance_to(now_ns + cfg.syscall_cost);
	}
	if (cfg.interleave && !events->empty() && events->begin()->first.first < now_ns + 2 * MS && chance(cfg.interleave)) {
		i64 t = events->begin()->first.first;
		busy_total += std::max<i64>(0, t - now_ns);
		shared->r.faults[F_EARLY_EVENT]++;
		advance_to(t);
	}
	maybe_preempt();
	fair_switch();
}
static bool kth(const char *op) {  // fallible call bookkeeping
	i64 n = fallible_++;
	bool f = (kth_fail >= 0 && n == kth_fail);
	if (f)
		shared->r.faults[F_SYSCALL_FAIL]++;
	if (!f && fault(F_SYSCALL_FAIL))
		f = true;
	if (f)
		ev("inject_fail", n);
	(void)op;
	return f;
}

static void *thr_main(void *p) {
	Thr *t = (Thr *)p;
	futex_wait(&t->go);
	cur = t;
	t->in_sim = 0;
	try {
		if (t->state)
			t->state->_M_run();
		else if (t->fn)
			t->fn();
	} catch (const std::exception &ex) {
		fail("thread-exception", "exception left a thread: %s", ex.what());
	}
	{
		TS_IGN();
		t->in_sim++;
		t->state.reset();
		t->fn = nullptr;
		t->finished = true;
		ev("thread_exit", t->id);
		HB_REL(t);
		Thr *n = pick_next(nullptr);
		switches_++;
		mix(hash_, 0x5157 + n->id);
		cur = n;
		TS_UNIGN();
		futex_post(&n->go);
	}
	return nullptr;
}
static Thr *new_thread() {
	Thr *t = new Thr;
	t->id = int(thrs->size());
	t->sigmask = cur->sigmask;
	thrs->push_back(t);
	return t;
}
extern "C" int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
extern "C" int __real_pthread_join(pthread_t, void **);
static void start_thread(Thr *t) {
	HB_REL(t);
	if (__real_pthread_create(&t->handle, nullptr, thr_main, t) != 0)
		harness_error("pthread_create failed");
	ev("thread_start", t->id);
	maybe_preempt();
}
void spawn(std::function<void()> f) {
	K k;
	Thr *t = new_thread();
	t->fn = std::move(f);
	harness_thrs->push_back(t);
	start_thread(t);
}
void join_all() {
	K k;
	for (auto t : *harness_thrs) {
		block([t] { return t->finished; });
		HB_ACQ(t);
		__real_pthread_join(t->handle, nullptr);
	}
	harness_thrs->clear();
}

// ------------------------------------------------------------------ files
enum Kind { EPOLL, EVENTFD, SIGNALFD, TCP, LISTEN, UDP };
static const char *kind_names[] = {"epoll", "eventfd", "signalfd", "tcp", "listen", "udp"};
struct File;
struct EpItem {
	File *ep;
	File *file;
	int fd;
	u32 events;
	u64 data;
	bool queued = false, disabled = false;
};
struct End {
	File *file = nullptr;
	RawPtr raw;
	std::string rcvq, sndq;
	size_t rcvbuf = 65536, sndbuf = 65536;
	bool shut_wr = false, fin_sent = false, fin_rcvd = false, closed = false, dead = false;
	bool nospace = false, stalled = false, pending = false, win_blocked = false, shut_rd = false;
	int err = 0;
	int port = 0;
	u32 ip = 0;
	u64 tx_total = 0, rx_total = 0;
	size_t wspace() const { return sndbuf > sndq.size() ? sndbuf - sndq.size() : 0; }
};
struct Conn {
	End e[2];  // 0 = client (connecting side), 1 = server (accepted side)
	int id = 0;
	int listen_port = 0;
};
typedef std::shared_ptr<Conn> ConnPtr;
struct Dgram {
	std::string data;
	u32 ip;
	int port;
};
struct File {
	Kind kind;
	int fd;
	bool nonblock = false;
	std::vector<EpItem *> watch;
	// epoll
	std::map<int, EpItem *> items;
	std::deque<EpItem *> ready;
	// eventfd / signalfd
	u64 counter = 0;
	u64 mask = 0;
	// tcp
	int family = AF_INET;
	bool bound = false;
	int port = 0;
	u32 ip = 0x7f000001;
	enum { NEW, CONNECTING, CONNECTED, FAILED } st = NEW;
	ConnPtr conn;
	int side = 0;
	int err = 0;
	size_t want_sndbuf = 0, want_rcvbuf = 0;
	// listen
	bool listening = false;
	std::deque<ConnPtr> backlog;
	u64 accepted = 0;
	// udp
	std::deque<Dgram> dq;
	size_t dq_bytes = 0;
	bool tx_full = false, tx_nospace = false;
	bool connected = false;
	int peer_port = 0;
	u32 peer_ip = 0;
	u32 group = 0;
	bool reuse = false;
	u64 hup_token = 0;
};
constexpr int FD0 = 500;
static std::vector<File *> *fds;
static std::map<int, File *> *listeners;  // port -> file
static std::map<int, std::function<void(RawPtr)>> *raw_listeners;
static std::map<int, std::function<void(const UdpRecv &)>> *raw_udp;
static int next_port, next_conn;
static u64 pending_signals;
static u64 udp_id;

static File *file(int fd) {
	if (fd < FD0 || size_t(fd - FD0) >= fds->size())
		return nullptr;
	return (*fds)[fd - FD0];
}
// a descriptor argument coming from the library
static File *use(int fd, const char *op) {
	step(op);
	if (fd >= FD0 && !file(fd))
		fail("stale-fd", "%s on descriptor %d which is not open", op, fd);
	if (fd >= 0 && fd < FD0)
		fail("foreign-fd", "%s on descriptor %d which the library never obtained", op, fd);
	File *f = file(fd);
	if (!f)
		errno = EBADF;
	return f;
}
int open_fd_count() {
	int n = 0;
	for (auto f : *fds)
		n += f != nullptr;
	return n;
}
std::vector<int> open_fds(const char *kind) {
	std::vector<int> r;
	for (auto f : *fds)
		if (f && (!kind || !strcmp(kind, kind_names[f->kind])))
			r.push_back(f->fd);
	return r;
}
bool fd_is_open(int fd) { return file(fd) != nullptr; }
static int alloc_fd(Kind k) {
	if (u32(open_fd_count()) >= cfg.fd_limit) {
		errno = EMFILE;
		return -1;
	}
	File *f = new File;
	f->kind = k;
	for (size_t i = 0; i != fds->size(); i++)
		if (!(*fds)[i]) {
			f->fd = FD0 + int(i);
			(*fds)[i] = f;
			return f->fd;
		}
	f->fd = FD0 + int(fds->size());
	fds->push_back(f);
	return f->fd;
}

// ------------------------------------------------------------------ readiness
static bool sig_readable(File *f) { return (pending_signals & f->mask) != 0; }
static u32 poll_mask(File *f) {
	u32 m = 0;
	switch (f->kind) {
	case EPOLL: break;
	case EVENTFD:
		if (f->counter)
			m |= EPOLLIN;
		m |= EPOLLOUT;
		break;
	case SIGNALFD:
		if (sig_readable(f))
			m |= EPOLLIN;
		break;
	case LISTEN:
		if (!f->backlog.empty())
			m |= EPOLLIN;
		break;
	case UDP:
		if (!f->dq.empty())
			m |= EPOLLIN;
		if (f->err)
			m |= EPOLLERR;
		if (!f->tx_full)
			m |= EPOLLOUT;
		break;
	case TCP:
		if (f->st == File::NEW)
			return EPOLLOUT | EPOLLHUP;
		if (f->st == File::CONNECTING)
			return 0;
		if (f->st == File::FAILED)
			return EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP | (f->err ? EPOLLERR : 0);
		{
			End &e = f->conn->e[f->side];
			bool rd_shut = e.fin_rcvd || e.dead || e.shut_rd, wr_shut = e.shut_wr || e.dead;
			if (rd_shut && wr_shut)
				m |= EPOLLHUP;
			if (rd_shut)
				m |= EPOLLIN | EPOLLRDHUP;
			if (!e.rcvq.empty())
				m |= EPOLLIN;
			if (wr_shut)
				m |= EPOLLOUT;
			else if (!e.stalled && e.wspace() * 2 >= e.sndq.size() && e.wspace() > 0)
				m |= EPOLLOUT;
			else
				e.nospace = true;
			if (e.err)
				m |= EPOLLERR;
		}
		break;
	}
	return m;
}
static void queue_item(EpItem *it) {
	if (it->queued || it->disabled)
		return;
	it->queued = true;
	it->ep->ready.push_back(it);
}
static void wake(File *f, u32 key) {
	if (!f)
		return;
	for (auto it : f->watch)
		if ((it->events | EPOLLERR | EPOLLHUP) & key)
			queue_item(it);
}

// ------------------------------------------------------------------ tcp
static i64 lat() { return cfg.net_lat_max ? range(cfg.net_lat_min, cfg.net_lat_max) : 0; }
static size_t seg(size_t n) {
	if (n <= 1)
		return n;
	int mode = cfg.seg_mode;
	if (mode == 3)
		mode = int(choose(3));
	if (mode == 2 && n > 4000)
		mode = 1;
	switch (mode) {
	case 1: {
		size_t s = size_log(1, n);
		return (n > 20000 && s < 500) ? std::min<size_t>(n, 500 + s) : s;
	}
	case 2: return 1 + choose(u32(std::min<size_t>(n, 3)));
	default: return n;
	}
}
static bool mute_raw;
static void raw_notify(End &e) {
	if (!mute_raw && e.raw && e.raw->on_event) {
		auto keep = e.raw;
		auto f = keep->on_event;
		f();
	}
}
static void kick(const ConnPtr &c, int s);
static void space_freed(End &e) {
	if (e.file && e.nospace && !e.stalled && e.wspace() > 0 && e.wspace() * 2 >= e.sndq.size()) {
		e.nospace = false;
		wake(e.file, EPOLLOUT);
	}
}
static void end_dies(const ConnPtr &c, int s, int err) {  // this end receives RST (or a fatal error)
	End &e = c->e[s];
	if (e.dead)
		return;
	e.dead = true;
	e.sndq.clear();
	if (e.closed)
		return;
	e.err = e.fin_rcvd && err == ECONNRESET ? EPIPE : err;
	if (e.raw) {
		e.raw->got_rst = true;
		raw_notify(e);
	} else
		wake(e.file, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
}
static void send_rst(const ConnPtr &c, int to) {
	at(now_ns + lat(), [c, to] { end_dies(c, to, ECONNRESET); });
}
static void raw_take(End &b, const ConnPtr &c, int bs) {
	if (b.raw && b.raw->reading && !b.rcvq.empty()) {
		b.raw->in += b.rcvq;
		b.rcvq.clear();
		End &a = c->e[1 - bs];
		if (a.win_blocked) {
			a.win_blocked = false;
			kick(c, 1 - bs);
		}
	}
}
static void deliver(const ConnPtr &c, int s) {
	End &a = c->e[s], &b = c->e[1 - s];
	a.pending = false;
	if (a.dead || b.dead)
		return;
	if (!a.sndq.empty()) {
		if (b.closed || b.shut_rd) {
			a.sndq.clear();
			send_rst(c, s);
			return;
		}
		size_t room = b.rcvbuf > b.rcvq.size() ? b.rcvbuf - b.rcvq.size() : 0;
		if (!room) {
			a.win_blocked = true;
			shared->r.faults[F_RCV_WINDOW]++;
			return;
		}
		size_t n = seg(std::min(room, a.sndq.size()));
		b.rcvq.append(a.sndq, 0, n);
		a.sndq.erase(0, n);
		ev("net_data", c->id * 2 + s, i64(n));
		space_freed(a);
		if (b.raw) {
			raw_take(b, c, 1 - s);
			bool more = a.sndq.empty() && a.shut_wr && !a.fin_sent && !b.dead && choose(2);
			if (!more) {
				if (!a.sndq.empty() || (a.shut_wr && !a.fin_sent))
					kick(c, s);
				raw_notify(b);
				return;
			}
		} else {
			wake(b.file, EPOLLIN);
			if (!(a.sndq.empty() && a.shut_wr && !a.fin_sent && choose(2))) {
				if (!a.sndq.empty() || (a.shut_wr && !a.fin_sent))
					kick(c, s);
				return;
			}
		}
	}
	if (a.sndq.empty() && a.shut_wr && !a.fin_sent) {
		a.fin_sent = true;
		ev("net_fin", c->id * 2 + s);
		if (!b.closed) {
			b.fin_rcvd = true;
			if (b.raw) {
				b.raw->got_fin = true;
				raw_notify(b);
			} else
				wake(b.file, EPOLLIN | EPOLLRDHUP | (b.shut_wr ? EPOLLHUP | EPOLLOUT : 0));
		}
	}
}
static void kick(const ConnPtr &c, int s) {
	End &a = c->e[s];
	if (a.pending || a.win_blocked)
		return;
	a.pending = true;
	at(now_ns + lat(), [c, s] { deliver(c, s); });
}
static void end_write_shutdown(const ConnPtr &c, int s) {
	End &a = c->e[s];
	if (a.shut_wr || a.dead)
		return;
	a.shut_wr = true;
	kick(c, s);
}
static void end_close(const ConnPtr &c, int s) {
	End &a = c->e[s];
	if (a.closed)
		return;
	a.closed = true;
	a.file = nullptr;
	if (a.dead)
		return;
	if (!a.rcvq.empty()) {  // unread data: RST
		a.dead = true;
		a.sndq.clear();
		a.rcvq.clear();
		send_rst(c, 1 - s);
		return;
	}
	a.shut_wr = true;
	if (a.win_blocked)
		a.win_blocked = false;  // persist timer: probe again
	if (!a.fin_sent)
		kick(c, s);
	ConnPtr cc = c;
	at(now_ns + cfg.orphan_dead_after, [cc, s] {
		End &a = cc->e[s];
		if (!a.sndq.empty() && !a.dead) {
			a.dead = true;
			a.sndq.clear();
			send_rst(cc, 1 - s);
		}
	});
}
void drop_events() {
	events->clear();
	mute_raw = true;
}
static int eph_port() { return next_port++; }
static ConnPtr make_conn(int lport) {
	auto c = std::make_shared<Conn>();
	c->id = next_conn++;
	c->listen_port = lport;
	c->e[0].port = eph_port();
	c->e[1].port = lport;
	c->e[1].ip = 0x7f000001;
	c->e[0].ip = 0x0a000000 | (c->id + 1);
	return c;
}
static void attach_raw(const ConnPtr &c, int s, const RawPtr &r) {
	r->conn = c;
	r->side = s;
	r->local_port = c->e[s].port;
	r->remote_port = c->e[1 - s].port;
	r->connected = true;
	c->e[s].raw = r;
	c->e[s].sndbuf = size_t(1) << 40;
}
// returns false when nobody listens
static bool establish(const ConnPtr &c) {
	auto it = listeners->find(c->listen_port);
	if (it != listeners->end()) {
		File *l = it->second;
		c->e[1].rcvbuf = l->want_rcvbuf ? l->want_rcvbuf : cfg.rcvbuf;
		c->e[1].sndbuf = l->want_sndbuf ? l->want_sndbuf : cfg.sndbuf;
		l->backlog.push_back(c);
		wake(l, EPOLLIN);
		return true;
	}
	auto rt = raw_listeners->find(c->listen_port);
	if (rt != raw_listeners->end()) {
		auto r = std::make_shared<RawConn>();
		attach_raw(c, 1, r);
		auto f = rt->second;
		f(r);
		return true;
	}
	return false;
}
RawPtr raw_connect(int port, i64 delay) {
	auto r = std::make_shared<RawConn>();
	at(now_ns + delay + lat(), [r, port] {
		if (r->closed)
			return;
		auto c = make_conn(port);
		attach_raw(c, 0, r);
		r->connected = false;
		c->e[0].rcvbuf = 1 << 20;
		if (!establish(c)) {
			r->connect_failed = true;
			r->connect_errno = ECONNREFUSED;
			ev("raw_refused", port);
		} else {
			r->connected = true;
			ev("raw_connected", port, c->id);
		}
		if (r->on_event) {
			auto f = r->on_event;
			f();
		}
	});
	return r;
}
void raw_listen(int port, std::function<void(RawPtr)> f) { (*raw_listeners)[port] = std::move(f); }
void raw_unlisten(int port) { raw_listeners->erase(port); }
void RawConn::send(const std::string &s) {
	if (!conn || closed || got_rst || conn->e[side].shut_wr || s.empty())
		return;
	conn->e[side].sndq += s;
	sent += s.size();
	ev("raw_send", conn->id, i64(s.size()));
	kick(conn, side);
}
void RawConn::fin() {
	if (!conn || closed || got_rst)
		return;
	ev("raw_fin", conn->id);
	end_write_shutdown(conn, side);
}
void RawConn::close() {
	if (closed)
		return;
	closed = true;
	on_event = nullptr;
	if (conn) {
		ev("raw_close", conn->id);
		end_close(conn, side);
	}
}
void RawConn::reset() {
	if (closed)
		return;
	closed = true;
	on_event = nullptr;
	if (!conn)
		return;
	ev("raw_reset", conn->id);
	End &a = conn->e[side];
	a.closed = true;
	if (a.dead)
		return;
	a.dead = true;
	a.sndq.clear();
	send_rst(conn, 1 - side);
}
void RawConn::set_reading(bool rd) {
	reading = rd;
	if (conn && rd) {
		End &a = conn->e[1 - side];
		bool had = !conn->e[side].rcvq.empty();
		raw_take(conn->e[side], conn, side);
		if (had) {
			ev("raw_resume", conn->id);
			raw_notify(conn->e[side]);
		}
		if (a.win_blocked) {
			a.win_blocked = false;
			kick(conn, 1 - side);
		}
	}
}
void RawConn::set_rcvbuf(size_t s) {
	if (conn)
		conn->e[side].rcvbuf = s;
}
u64 RawConn::peer_sent() const { return conn ? conn->e[1 - side].tx_total : 0; }
u64 RawConn::peer_read() const { return conn ? conn->e[1 - side].rx_total : 0; }
bool RawConn::peer_closed() const { return conn && conn->e[1 - side].closed; }
bool RawConn::peer_shut() const { return conn && conn->e[1 - side].shut_wr; }
size_t RawConn::unsent() const { return conn ? conn->e[side].sndq.size() : 0; }
std::string peek_rcvq(int fd) {
	File *f = file(fd);
	return f && f->conn ? f->conn->e[f->side].rcvq : std::string();
}
size_t listen_backlog(int port) {
	auto it = listeners->find(port);
	return it == listeners->end() ? 0 : it->second->backlog.size();
}
int established_count(int port) {
	int n = 0;
	for (auto f : *fds)
		if (f && f->kind == TCP && f->conn && f->side == 1 && f->conn->listen_port == port)
			n++;
	return n;
}
u64 accepted_total(int port) {
	auto it = listeners->find(port);
	return it == listeners->end() ? 0 : it->second->accepted;
}

// ------------------------------------------------------------------ udp
static void fill_addr(const File *f, sockaddr *sa, socklen_t *len, u32 ip, int port) {
	if (!sa || !len)
		return;
	if (f && f->family == AF_INET6) {
		sockaddr_in6 a{};
		a.sin6_family = AF_INET6;
		a.sin6_port = htons(uint16_t(port));
		u8 *b = (u8 *)&a.sin6_addr;
		b[10] = b[11] = 0xff;
		u32 n = htonl(ip);
		memcpy(b + 12, &n, 4);
		memcpy(sa, &a, std::min<size_t>(*len, sizeof a));
		*len = sizeof a;
		return;
	}
	sockaddr_in a{};
	a.sin_family = AF_INET;
	a.sin_port = htons(uint16_t(port));
	a.sin_addr.s_addr = htonl(ip);
	memcpy(sa, &a, std::min<size_t>(*len, sizeof a));
	*len = sizeof a;
}
static bool get_addr(const sockaddr *sa, socklen_t len, u32 &ip, int &port) {
	if (!sa || len < sizeof(sa_family_t))
		return false;
	if (sa->sa_family == AF_INET && len >= sizeof(sockaddr_in)) {
		auto a = (const sockaddr_in *)sa;
		ip = ntohl(a->sin_addr.s_addr);
		port = ntohs(a->sin_port);
		return true;
	}
	if (sa->sa_family == AF_INET6 && len >= sizeof(sockaddr_in6)) {
		auto a = (const sockaddr_in6 *)sa;
		u32 n;
		memcpy(&n, (const u8 *)&a->sin6_addr + 12, 4);
		ip = ntohl(n);
		port = ntohs(a->sin6_port);
		return true;
	}
	return false;
}
static void udp_enqueue(File *f, const std::string &d, u32 ip, int port) {
	size_t lim = f->want_rcvbuf ? f->want_rcvbuf : 200000;
	if (f->dq_bytes + d.size() + 100 > lim) {
		ev("udp_overflow", f->fd);
		return;
	}
	f->dq.push_back(Dgram{d, ip, port});
	f->dq_bytes += d.size() + 100;
	udp_queued.push_back(UdpIn{d, port, f->fd});
	ev("udp_in", f->fd, i64(d.size()), port);
	wake(f, EPOLLIN);
}
static void udp_deliver_to(u32 ip, int port, u32 from_ip, int from_port, const std::string &d) {
	for (auto f : *fds)
		if (f && f->kind == UDP && f->bound && f->port == port) {
			bool mc = (ip >> 28) == 0xe;
			if (mc && f->group != ip)
				continue;
			if (f->connected && (f->peer_port != from_port))
				continue;
			udp_enqueue(f, d, from_ip, from_port);
			if (!mc)
				return;
		}
	auto it = raw_udp->find(port);
	if (it != raw_udp->end()) {
		auto g = it->second;
		g(UdpRecv{d, from_port, port});
		return;
	}
	// nobody there: ICMP port unreachable to a connected sender
	if (chance(500))
		for (auto f : *fds)
			if (f && f->kind == UDP && f->bound && f->port == from_port && f->connected) {
				f->err = ECONNREFUSED;
				count_fault(F_UDP_ICMP);
				wake(f, EPOLLERR | EPOLLIN | EPOLLOUT);
			}
}
static void udp_send_net(u32 from_ip, int from_port, u32 ip, int port, const std::string &d) {
	if (fault(F_UDP_LOSS))
		return;
	int copies = fault(F_UDP_DUP) ? 2 : 1;
	for (int i = 0; i < copies; i++) {
		i64 l = lat();
		if (fault(F_UDP_REORDER))
			l += range(0, 20 * MS);
		at(now_ns + l, [=] { udp_deliver_to(ip, port, from_ip, from_port, d); });
	}
}
void udp_raw_send(int from_port, int to_port, const std::string &d) { udp_send_net(0x0a010101, from_port, 0x7f000001, to_port, d); }
void udp_raw_bind(int port, std::function<void(const UdpRecv &)> f) { (*raw_udp)[port] = std::move(f); }
void udp_icmp_error(int port, int err) {
	for (auto f : *fds)
		if (f && f->kind == UDP && f->bound && f->port == port) {
			f->err = err;
			count_fault(F_UDP_ICMP);
			wake(f, EPOLLERR);
		}
}
size_t udp_rcvq(int fd) {
	File *f = file(fd);
	return f ? f->dq.size() : 0;
}

// ------------------------------------------------------------------ signals
void raise_signal(int sig) {
	K k;
	u64 bit = u64(1) << sig;
	count_fault(F_SIGNAL);
	ev("signal", sig);
	for (auto t : *thrs)
		if (!t->finished && !(t->sigmask & bit)) {
			fatal_signals++;
			return;
		}
	if (pending_signals & bit)
		return;  // a standard signal that is already pending is merged without waking anybody
	pending_signals |= bit;
	for (auto f : *fds)
		if (f && f->kind == SIGNALFD && (f->mask & bit))
			wake(f, EPOLLIN);
}
bool signal_masked(int sig) { return (cur->sigmask >> sig) & 1; }

// ------------------------------------------------------------------ config
void random_net_config() {
	switch (choose(4)) {
	case 0: cfg.net_lat_min = cfg.net_lat_max = 0; break;
	case 1: cfg.net_lat_min = 0, cfg.net_lat_max = 100 * US; break;
	case 2: cfg.net_lat_min = 0, cfg.net_lat_max = 3 * MS; break;
	case 3: cfg.net_lat_min = 5 * MS, cfg.net_lat_max = 80 * MS; break;
	}
	cfg.seg_mode = int(choose(4));
	static const size_t bufs[] = {65536, 4096, 600, 64, 7};
	cfg.sndbuf = bufs[choose(5)];
	cfg.rcvbuf = bufs[choose(5)];
	static const i64 costs[] = {0, 1 * US, 30 * US};
	cfg.syscall_cost = costs[choose(3)];
	static const u32 il[] = {0, 30, 300};
	cfg.interleave = il[choose(3)];
}

// ------------------------------------------------------------------ run
static void on_terminate() {
	std::string what = "unknown";
	if (auto p = std::current_exception()) {
		try {
			std::rethrow_exception(p);
		} catch (const std::exception &ex) {
			what = ex.what();
		} catch (const Stop &) {
			what = "sim::Stop";
		} catch (...) {
		}
	} else
		what = "terminate without exception";
	fail("terminate", "std::terminate: %s", what.c_str());
}
#ifndef SIM_TSAN
static size_t largest_alloc = 0;
extern "C" void __sanitizer_malloc_hook(const volatile void *, size_t n) { largest_alloc = std::max(largest_alloc, n); }
size_t max_alloc() { return largest_alloc; }
extern "C" void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
static void asan_report(const char *text) {
	Result &r = shared->r;
	const char *p = strstr(text, "ERROR: AddressSanitizer: ");
	char kind[64] = "error";
	if (p)
		sscanf(p + 25, "%63s", kind);
	snprintf(r.cls, sizeof r.cls, "asan:%s", kind);
	snprintf(r.msg, sizeof r.msg, "%s", p ? p : text);
	if (trace_out)
		fprintf(stderr, "%s\n", text);
	finish(2);
}
#endif
void run_child(void (*fn)()) {
	events = new std::map<std::pair<i64, u64>, std::function<void()>>;
	thrs = new std::vector<Thr *>;
	harness_thrs = new std::vector<Thr *>;
	fds = new std::vector<File *>;
	listeners = new std::map<int, File *>;
	raw_listeners = new std::map<int, std::function<void(RawPtr)>>;
	raw_udp = new std::map<int, std::function<void(const UdpRecv &)>>;
	op_counts = new std::map<const char *, u64>;
	next_port = 40000;
	now_ns = 1000 * SEC;
	wall_off = 1700000000LL * SEC;
	hash_ = 0x1234;
	shape_ = 0x4321;
	prng_s = run_seed * 0x9e3779b97f4a7c15ULL + 0x51ED;
	splitmix(prng_s);
	Thr *t = new Thr;
	t->id = 0;
	thrs->push_back(t);
	cur = t;
	std::set_terminate(on_terminate);
#ifndef SIM_TSAN
	if (__asan_set_error_report_callback)
		__asan_set_error_report_callback(asan_report);
#endif
	stable_s = choose(1u << 30) + 1;
	active = true;
	fine_countdown = INT64_MAX;
	try {
		fn();
	} catch (const Stop &) {
		harness_error("sim::Stop left the scenario");
	} catch (const std::exception &ex) {
		fail("exception", "exception left the scenario: %s", ex.what());
	}
	finish(1);
}
}  // namespace sim

using namespace sim;

#ifndef SIM_TSAN
extern "C" void __ubsan_get_current_report_data(const char **kind, const char **msg, const char **file, unsigned *line, unsigned *col, char **addr) __attribute__((weak));
extern "C" void __ubsan_on_report() {
	if (!active || !__ubsan_get_current_report_data)
		return;
	const char *kind = "", *msg = "", *file = "";
	unsigned line = 0, col = 0;
	char *addr = nullptr;
	__ubsan_get_current_report_data(&kind, &msg, &file, &line, &col, &addr);
	char cls[128];
	snprintf(cls, sizeof cls, "ubsan:%s", kind ? kind : "");
	const char *base = file ? strrchr(file, '/') : nullptr;
	fail(cls, "undefined behaviour: %s at %s:%u", msg ? msg : "", base ? base + 1 : file ? file : "", line);
}
#endif

#ifdef SIM_TSAN
extern "C" int __tsan_get_report_data(void *report, const char **description, int *count, int *stack_count, int *mop_count, int *loc_count,
    int *mutex_count, int *thread_count, int *unique_tid_count, void **sleep_trace, unsigned long trace_size);
extern "C" int __tsan_get_report_mop(void *report, unsigned long idx, int *tid, void **addr, int *size, int *write, int *atomic, void **trace,
    unsigned long trace_size);
extern "C" void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, unsigned long size);
extern "C" void __tsan_on_report(void *rep) {
	if (!active)
		return;
	const char *what = "";
	int n[7] = {};
	void *sleep_tr[1];
	__tsan_get_report_data(rep, &what, &n[0], &n[1], &n[2], &n[3], &n[4], &n[5], &n[6], sleep_tr, 0);
	std::string text;
	for (int i = 0; i < n[2] && i < 2; i++) {
		int tid = 0, size = 0, write = 0, atomic = 0;
		void *addr = nullptr, *trace[16] = {};
		__tsan_get_report_mop(rep, i, &tid, &addr, &size, &write, &atomic, trace, 16);
		text += i ? "; and " : "";
		text += std::string(atomic ? "atomic " : "") + (write ? "write" : "read") + " of " + std::to_string(size) + " bytes in";
		int shown = 0;
		std::string last;
		for (int k = 0; k < 16 && trace[k] && shown < 5; k++) {
			char b[300] = "";
			__sanitizer_symbolize_pc(trace[k], "%f", b, sizeof b);
			if (b == last || strstr(b, "__invoke") || strncmp(b, "std::", 5) == 0 || strncmp(b, "void std::", 10) == 0)
				continue;
			last = b;
			text += std::string(shown++ ? " < " : " ") + b;
		}
	}
	fail((std::string("tsan:") + what).c_str(), "threads are not ordered: %s", text.c_str());
}
#endif

// ==================================================================== instrumentation
extern "C" void __sanitizer_cov_trace_pc_guard_init(u32 *start, u32 *stop) {
	if (start == stop || *start)
		return;
	for (u32 *x = start; x < stop; x++)
		*x = ++guard_count;
}
static inline void fine_point() {
	bb_ = bb_ + 1;
	if (!cur || cur->in_sim)
		return;
	if (__builtin_expect(bb_ > cfg.bb_limit, 0)) {
		cur->in_sim++;
		fail("hang", "the library executed %llu basic blocks without finishing", (unsigned long long)bb_);
	}
	if (cfg.fine_preempt && thrs->size() > 1) {
		if (fine_countdown > 1000000)
			fine_countdown = draw_gap();
		if (--fine_countdown <= 0) {
			K k;
			fine_countdown = draw_gap();
			if (live_threads() > 1 && !in_event) {
				shared->r.faults[F_PREEMPT]++;
				schedule(cur);
			}
		}
	}
}
extern "C" void __sanitizer_cov_trace_pc_guard(u32 *guard) {
	if (!active)
		return;
	if (*guard < MAX_GUARDS)
		shared->cov[*guard] = 1;
	fine_point();
}
#define LS(n) \
	extern "C" void __sanitizer_cov_load##n(void *) { if (active) fine_point(); } \
	extern "C" void __sanitizer_cov_store##n(void *) { if (active) fine_point(); }
LS(1) LS(2) LS(4) LS(8) LS(16)

// ==================================================================== wraps
#define REAL(ret, name, ...) extern "C" ret __real_##name(__VA_ARGS__)
#define WRAP(ret, name, ...) extern "C" __attribute__((used)) ret __wrap_##name(__VA_ARGS__)
static int err(int e) {
	errno = e;
	return -1;
}
static size_t short_len(size_t n) {  // 1 to n-1: the ends are the interesting lengths
	u32 k = choose(4);
	return k == 0 ? 1 : k == 1 ? n - 1 : 1 + choose(u32(n - 1));
}
static ssize_t lerr(int e) {
	errno = e;
	return -1;
}
static File *tcp_conn(File *f) { return f && f->kind == TCP ? f : nullptr; }

// ---- clocks
REAL(i64, _ZNSt6chrono3_V212steady_clock3nowEv);
WRAP(i64, _ZNSt6chrono3_V212steady_clock3nowEv) { return active ? now_ns : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
REAL(i64, _ZNSt6chrono3_V212system_clock3nowEv);
WRAP(i64, _ZNSt6chrono3_V212system_clock3nowEv) { return active ? now_ns + wall_off : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
REAL(int, clock_gettime, clockid_t, timespec *);
WRAP(int, clock_gettime, clockid_t id, timespec *ts) {
	if (!active)
		return __real_clock_gettime(id, ts);
	i64 t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? now_ns + wall_off : now_ns;
	ts->tv_sec = t / SEC;
	ts->tv_nsec = t % SEC;
	return 0;
}
REAL(time_t, time, time_t *);
WRAP(time_t, time, time_t *p) {
	if (!active)
		return __real_time(p);
	time_t t = (now_ns + wall_off) / SEC;
	if (p)
		*p = t;
	return t;
}
REAL(int, gettimeofday, timeval *, void *);
WRAP(int, gettimeofday, timeval *tv, void *z) {
	if (!active)
		return __real_gettimeofday(tv, z);
	i64 t = now_ns + wall_off;
	tv->tv_sec = t / SEC;
	tv->tv_usec = (t % SEC) / 1000;
	return 0;
}
static void sim_sleep(i64 d) {
	K k;
	step("sleep");
	i64 dl = now_ns + d;
	block([] { return false; }, dl);
}
REAL(int, nanosleep, const timespec *, timespec *);
WRAP(int, nanosleep, const timespec *a, timespec *b) {
	if (!active)
		return __real_nanosleep(a, b);
	sim_sleep(i64(a->tv_sec) * SEC + a->tv_nsec);
	return 0;
}
REAL(int, clock_nanosleep, clockid_t, int, const timespec *, timespec *);
WRAP(int, clock_nanosleep, clockid_t id, int fl, const timespec *a, timespec *b) {
	if (!active)
		return __real_clock_nanosleep(id, fl, a, b);
	i64 d = i64(a->tv_sec) * SEC + a->tv_nsec;
	if (fl & TIMER_ABSTIME)
		d -= (id == CLOCK_REALTIME) ? now_ns + wall_off : now_ns;
	sim_sleep(std::max<i64>(d, 0));
	return 0;
}
REAL(int, usleep, useconds_t);
WRAP(int, usleep, useconds_t us) {
	if (!active)
		return __real_usleep(us);
	sim_sleep(i64(us) * 1000);
	return 0;
}
// ---- randomness
REAL(void, _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE, void *, const std::string &);
WRAP(void, _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE, void *p, const std::string &s) {
	if (!active)
		__real__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(p, s);
}
REAL(void, _ZNSt13random_device7_M_finiEv, void *);
WRAP(void, _ZNSt13random_device7_M_finiEv, void *p) {
	if (!active)
		__real__ZNSt13random_device7_M_finiEv(p);
}
REAL(u32, _ZNSt13random_device9_M_getvalEv, void *);
WRAP(u32, _ZNSt13random_device9_M_getvalEv, void *p) {
	return active ? u32(stable_random()) : __real__ZNSt13random_device9_M_getvalEv(p);
}
WRAP(ssize_t, getrandom, void *b, size_t n, unsigned) {
	for (size_t i = 0; i < n; i++)
		((u8 *)b)[i] = u8(stable_random());
	return ssize_t(n);
}
WRAP(int, getentropy, void *b, size_t n) {
	__wrap_getrandom(b, n, 0);
	return 0;
}

// ---- mutexes, condition variables, threads
namespace {
struct MutexState {
	Thr *owner = nullptr;
	int depth = 0;
};
std::map<void *, MutexState> *mutexes;
struct CvWaiter {
	Thr *t;
	bool notified;
};
std::map<void *, std::vector<CvWaiter *>> *cvs;
void mutex_lock(void *m) {
	K k;
	step("mutex_lock");
	if (!mutexes)
		mutexes = new std::map<void *, MutexState>;
	auto it = mutexes->find(m);
	if (it != mutexes->end() && it->second.owner == cur) {
		int kind = ((pthread_mutex_t *)m)->__data.__kind & 3;
		if (kind == PTHREAD_MUTEX_RECURSIVE_NP) {
			it->second.depth++;
			return;
		}
		fail("self-deadlock", "thread %d locks a mutex it already holds", cur->id);
	}
	if (it != mutexes->end()) {
		PROBE("mutex_contended");
		block([m] { return mutexes->find(m) == mutexes->end(); });
	}
	(*mutexes)[m] = MutexState{cur, 1};
	HB_ACQ(m);
}
bool mutex_trylock(void *m) {
	K k;
	step("mutex_trylock");
	if (!mutexes)
		mutexes = new std::map<void *, MutexState>;
	if (mutexes->count(m))
		return false;
	(*mutexes)[m] = MutexState{cur, 1};
	HB_ACQ(m);
	return true;
}
void mutex_unlock_raw(void *m) {
	auto it = mutexes ? mutexes->find(m) : std::map<void *, MutexState>::iterator();
	if (!mutexes || it == mutexes->end() || it->second.owner != cur)
		fail("bad-unlock", "thread %d unlocks a mutex it does not hold", cur->id);
	if (--it->second.depth == 0) {
		HB_REL(m);
		mutexes->erase(it);
	}
}
void mutex_unlock(void *m) {
	K k;
	mutex_unlock_raw(m);
	step("mutex_unlock");
}
bool cv_wait(void *cv, void *m, i64 deadline) {
	K k;
	step("cv_wait");
	if (!cvs)
		cvs = new std::map<void *, std::vector<CvWaiter *>>;
	if (fault(F_CV_SPURIOUS)) {
		mutex_unlock_raw(m);
		schedule(cur);
		mutex_lock(m);
		return true;
	}
	CvWaiter w{cur, false};
	(*cvs)[cv].push_back(&w);
	mutex_unlock_raw(m);
	CvWaiter *pw = &w;
	ev("cv_wait");
	block([pw] { return pw->notified; }, deadline);
	bool got = w.notified;
	auto &v = (*cvs)[cv];
	v.erase(std::remove(v.begin(), v.end(), pw), v.end());
	if (v.empty())
		cvs->erase(cv);
	mutex_lock(m);
	return got;
}
void cv_notify(void *cv, bool all) {
	K k;
	if (cvs) {
		auto it = cvs->find(cv);
		if (it != cvs->end()) {
			std::vector<CvWaiter *> w;
			for (auto x : it->second)
				if (!x->notified)
					w.push_back(x);
			if (all)
				for (auto x : w)
					x->notified = true;
			else if (!w.empty())
				w[choose(u32(w.size()))]->notified = true;
		}
	}
	step("cv_notify");
}
i64 abs_deadline(clockid_t id, const timespec *ts) {
	i64 t = i64(ts->tv_sec) * SEC + ts->tv_nsec;
	return id == CLOCK_REALTIME ? t - wall_off : t;
}
}  // namespace
REAL(int, pthread_mutex_lock, pthread_mutex_t *);
WRAP(int, pthread_mutex_lock, pthread_mutex_t *m) {
	if (!active)
		return __real_pthread_mutex_lock(m);
	mutex_lock(m);
	return 0;
}
REAL(int, pthread_mutex_trylock, pthread_mutex_t *);
WRAP(int, pthread_mutex_trylock, pthread_mutex_t *m) {
	if (!active)
		return __real_pthread_mutex_trylock(m);
	return mutex_trylock(m) ? 0 : EBUSY;
}
REAL(int, pthread_mutex_unlock, pthread_mutex_t *);
WRAP(int, pthread_mutex_unlock, pthread_mutex_t *m) {
	if (!active)
		return __real_pthread_mutex_unlock(m);
	mutex_unlock(m);
	return 0;
}
// std::condition_variable: wait(unique_lock<mutex>&)
WRAP(void, _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE, void *cv, std::unique_lock<std::mutex> *l) {
	cv_wait(cv, l->mutex()->native_handle(), INT64_MAX);
}
WRAP(void, _ZNSt18condition_variable10notify_oneEv, void *cv) { cv_notify(cv, false); }
WRAP(void, _ZNSt18condition_variable10notify_allEv, void *cv) { cv_notify(cv, true); }
WRAP(int, pthread_cond_wait, void *cv, void *m) {
	cv_wait(cv, m, INT64_MAX);
	return 0;
}
WRAP(int, pthread_cond_timedwait, void *cv, void *m, const timespec *ts) {
	return cv_wait(cv, m, abs_deadline(CLOCK_REALTIME, ts)) ? 0 : ETIMEDOUT;
}
WRAP(int, pthread_cond_clockwait, void *cv, void *m, clockid_t id, const timespec *ts) {
	return cv_wait(cv, m, abs_deadline(id, ts)) ? 0 : ETIMEDOUT;
}
WRAP(int, pthread_cond_signal, void *cv) {
	cv_notify(cv, false);
	return 0;
}
WRAP(int, pthread_cond_broadcast, void *cv) {
	cv_notify(cv, true);
	return 0;
}
static std::map<unsigned long, Thr *> *by_handle;
WRAP(void, _ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE, void *th,
    std::unique_ptr<std::thread::_State> *st, void (*)()) {
	K k;
	step("thread_create");
	Thr *t = new_thread();
	t->state = std::move(*st);
	t->in_sim = 0;
	HB_REL(t);
	if (__real_pthread_create(&t->handle, nullptr, thr_main, t) != 0)
		harness_error("pthread_create failed");
	if (!by_handle)
		by_handle = new std::map<unsigned long, Thr *>;
	(*by_handle)[(unsigned long)t->handle] = t;
	memcpy(th, &t->handle, sizeof t->handle);
	ev("thread_start", t->id);
	maybe_preempt();
}
static void join_handle(pthread_t h) {
	K k;
	step("thread_join");
	Thr *t = by_handle && by_handle->count((unsigned long)h) ? (*by_handle)[(unsigned long)h] : nullptr;
	if (!t)
		fail("bad-join", "joining a thread that is not joinable");
	if (t == cur)
		fail("self-join", "a thread joins itself");
	block([t] { return t->finished; });
	HB_ACQ(t);
	ev("thread_joined", t->id);
	by_handle->erase((unsigned long)h);
	__real_pthread_join(h, nullptr);
}
WRAP(void, _ZNSt6thread4joinEv, void *th) {
	pthread_t h;
	memcpy(&h, th, sizeof h);
	join_handle(h);
	memset(th, 0, sizeof h);
}
WRAP(void, _ZNSt6thread6detachEv, void *th) {
	K k;
	step("thread_detach");
	memset(th, 0, sizeof(pthread_t));
}
WRAP(int, pthread_create, pthread_t *h, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
	if (!active)
		return __real_pthread_create(h, a, fn, arg);
	K k;
	step("pthread_create");
	Thr *t = new_thread();
	t->fn = [fn, arg] { fn(arg); };
	start_thread(t);
	if (!by_handle)
		by_handle = new std::map<unsigned long, Thr *>;
	(*by_handle)[(unsigned long)t->handle] = t;
	*h = t->handle;
	return 0;
}
WRAP(int, pthread_join, pthread_t h, void **ret) {
	if (!active)
		return __real_pthread_join(h, ret);
	join_handle(h);
	return 0;
}
WRAP(int, sched_yield) {
	sim::yield();
	return 0;
}
static std::vector<std::pair<void (*)(void *), void *>> *at_exit;
REAL(int, __cxa_atexit, void (*)(void *), void *, void *);
WRAP(int, __cxa_atexit, void (*f)(void *), void *arg, void *dso) {
	if (!active)
		return __real___cxa_atexit(f, arg, dso);
	K k;
	if (!at_exit)
		at_exit = new std::vector<std::pair<void (*)(void *), void *>>;
	at_exit->emplace_back(f, arg);
	return 0;
}
namespace sim {
void exit_process() {
	while (at_exit && !at_exit->empty()) {
		auto x = at_exit->back();
		{
			K k;
			at_exit->pop_back();
			step("exit");
		}
		x.first(x.second);
	}
}
}  // namespace sim
static std::set<void *> *guards_busy;
REAL(int, __cxa_guard_acquire, u64 *);
WRAP(int, __cxa_guard_acquire, u64 *g) {
	if (!active)
		return __real___cxa_guard_acquire(g);
	K k;
	step("static_guard");
	if (!guards_busy)
		guards_busy = new std::set<void *>;
	if (guards_busy->count(g))
		block([g] { return !guards_busy->count(g); });
	HB_ACQ(g);
	if (*(volatile u8 *)g)
		return 0;
	guards_busy->insert(g);
	return 1;
}
REAL(void, __cxa_guard_release, u64 *);
WRAP(void, __cxa_guard_release, u64 *g) {
	if (!active)
		return __real___cxa_guard_release(g);
	K k;
	HB_REL(g);
	*(volatile u8 *)g = 1;
	if (guards_busy)
		guards_busy->erase(g);
}
REAL(void, __cxa_guard_abort, u64 *);
WRAP(void, __cxa_guard_abort, u64 *g) {
	if (!active)
		return __real___cxa_guard_abort(g);
	K k;
	if (guards_busy)
		guards_busy->erase(g);
}

// ---- epoll
static int do_epoll_create() {
	K k;
	step("epoll_create1");
	if (kth("epoll_create1"))
		return err(ENOMEM);
	int fd = alloc_fd(EPOLL);
	ev("epoll_create1", fd);
	return fd;
}
WRAP(int, epoll_create1, int) { return do_epoll_create(); }
WRAP(int, epoll_create, int) { return do_epoll_create(); }
static void drop_item(EpItem *it) {
	auto &w = it->file->watch;
	w.erase(std::remove(w.begin(), w.end(), it), w.end());
	auto &q = it->ep->ready;
	q.erase(std::remove(q.begin(), q.end(), it), q.end());
	it->ep->items.erase(it->fd);
	delete it;
}
WRAP(int, epoll_ctl, int epfd, int op, int fd, epoll_event *e) {
	K k;
	File *ep = use(epfd, "epoll_ctl");
	if (!ep)
		return err(EBADF);
	File *f = use(fd, "epoll_ctl");
	if (!f)
		return err(EBADF);
	if (ep->kind != EPOLL)
		return err(EINVAL);
	HB_REL(ep);
	auto it = ep->items.find(fd);
	if (op == EPOLL_CTL_ADD) {
		if (it != ep->items.end())
			return err(EEXIST);
		if (kth("epoll_ctl"))
			return err(choose(2) ? ENOSPC : ENOMEM);
		EpItem *n = new EpItem;
		n->ep = ep;
		n->file = f;
		n->fd = fd;
		n->events = e->events;
		n->data = e->data.u64;
		ep->items[fd] = n;
		f->watch.push_back(n);
		ev("epoll_add", fd, i64(e->events & 0x7fffffff));
		if (poll_mask(f) & (n->events | EPOLLERR | EPOLLHUP))
			queue_item(n);
		return 0;
	}
	if (it == ep->items.end())
		return err(ENOENT);
	if (op == EPOLL_CTL_DEL) {
		ev("epoll_del", fd);
		drop_item(it->second);
		return 0;
	}
	EpItem *n = it->second;
	n->events = e->events;
	n->data = e->data.u64;
	n->disabled = false;
	ev("epoll_mod", fd, i64(e->events & 0x7fffffff));
	if (poll_mask(f) & (n->events | EPOLLERR | EPOLLHUP))
		queue_item(n);
	return 0;
}
static bool ep_any(File *ep) {
	for (auto it : ep->ready)
		if (poll_mask(it->file) & (it->events | EPOLLERR | EPOLLHUP))
			return true;
	return false;
}
static int ep_collect(File *ep, epoll_event *out, int maxev) {
	int n = 0;
	if (ep->ready.size() > 1 && fault(F_EPOLL_REORDER)) {
		for (size_t i = ep->ready.size() - 1; i > 0; i--)
			std::swap(ep->ready[i], ep->ready[choose(u32(i + 1))]);
	}
	int lim = maxev;
	if (ep->ready.size() > 1 && fault(F_EPOLL_PARTIAL))
		lim = std::min(maxev, 1 + int(choose(u32(ep->ready.size()))));
	std::deque<EpItem *> keep;
	while (!ep->ready.empty() && n < lim) {
		EpItem *it = ep->ready.front();
		ep->ready.pop_front();
		it->queued = false;
		u32 m = poll_mask(it->file) & (it->events | EPOLLERR | EPOLLHUP);
		if (!m)
			continue;
		out[n].events = m;
		out[n].data.u64 = it->data;
		n++;
		ev("event", it->fd, i64(m));
		if (it->events & EPOLLONESHOT)
			it->disabled = true;
		else if (!(it->events & EPOLLET)) {
			it->queued = true;
			keep.push_back(it);
		}
	}
	for (auto it : keep)
		ep->ready.push_back(it);
	return n;
}
WRAP(int, epoll_wait, int epfd, epoll_event *out, int maxev, int timeout) {
	K k;
	File *ep = use(epfd, "epoll_wait");
	if (!ep || ep->kind != EPOLL)
		return err(EBADF);
	epoll_calls_++;
	if (timeout == 0)
		epoll_nb_calls_++;
	const bool main = cur->id == 0;
	ev("epoll_wait", epfd, timeout);
	if (main && (now_ns >= stop_time || (stop_pred && stop_pred())))
		throw Stop();
	if (main && on_epoll_enter)
		on_epoll_enter(epfd, timeout);
	i64 deadline = timeout < 0 ? INT64_MAX : now_ns + i64(timeout) * MS;
	if (timeout != 0 && fault(F_EPOLL_EINTR)) {
		i64 d = now_ns + range(0, timeout < 0 ? 10 : std::min(timeout, 10)) * MS / 3;
		d = std::min(d, deadline);
		if (d > now_ns && !ep_any(ep))
			block([ep] { return ep_any(ep); }, std::min(d, stop_time));
		if (!ep_any(ep) && now_ns < deadline) {
			ev("epoll_eintr", epfd);
			return err(EINTR);
		}
	}
	if (!ep->items.empty() && fault(F_EPOLL_SPURIOUS)) {
		size_t i = choose(u32(ep->items.size()));
		auto it = ep->items.begin();
		std::advance(it, i);
		if (poll_mask(it->second->file) & it->second->events)
			queue_item(it->second);
	}
	int n;
	while (true) {
		n = ep_collect(ep, out, maxev);
		if (n > 0 || timeout == 0 || now_ns >= deadline)
			break;
		if (main && (now_ns >= stop_time || (stop_pred && stop_pred())))
			throw Stop();
		i64 dl = main ? std::min(deadline, stop_time) : deadline;
		block([ep, main] { return ep_any(ep) || (main && stop_pred && stop_pred()); }, dl);
		if (now_ns >= deadline || ep_any(ep)) {
			if (fault(F_LATE_WAKE)) {
				i64 d = range(1, 60) * MS;
				busy_total += d;
				advance_to(now_ns + d);
			}
		}
		if (file(epfd) != ep)
			fail("stale-fd", "epoll descriptor closed while waited on");
	}
	HB_ACQ(ep);
	ev("epoll_ret", epfd, n);
	if (main && on_epoll_leave)
		on_epoll_leave();
	return n;
}
WRAP(int, epoll_pwait, int epfd, epoll_event *out, int maxev, int timeout, const sigset_t *) {
	return __wrap_epoll_wait(epfd, out, maxev, timeout);
}

// ---- eventfd
WRAP(int, eventfd, unsigned init, int flags) {
	K k;
	step("eventfd");
	if (kth("eventfd"))
		return err(EMFILE);
	int fd = alloc_fd(EVENTFD);
	if (fd < 0)
		return -1;
	file(fd)->counter = init;
	file(fd)->nonblock = flags & EFD_NONBLOCK;
	ev("eventfd", fd);
	return fd;
}
static int do_eventfd_read(File *f, u64 *v) {
	if (!f->counter) {
		if (f->nonblock)
			return err(EAGAIN);
		block([f] { return f->counter != 0; });
	}
	*v = f->counter;
	f->counter = 0;
	HB_ACQ((char *)f + 1);
	ev("eventfd_read", f->fd, i64(*v));
	return 0;
}
static int do_eventfd_write(File *f, u64 v) {
	HB_REL((char *)f + 1);
	f->counter += v;
	ev("eventfd_write", f->fd);
	wake(f, EPOLLIN);
	return 0;
}
WRAP(int, eventfd_read, int fd, eventfd_t *v) {
	K k;
	File *f = use(fd, "eventfd_read");
	if (!f || f->kind != EVENTFD)
		return err(EBADF);
	return do_eventfd_read(f, (u64 *)v);
}
WRAP(int, eventfd_write, int fd, eventfd_t v) {
	K k;
	File *f = use(fd, "eventfd_write");
	if (!f || f->kind != EVENTFD)
		return err(EBADF);
	int r = do_eventfd_write(f, v);
	step("eventfd_write");
	return r;
}

// ---- signals
static u64 to_mask(const sigset_t *s) {
	u64 m = 0;
	for (int i = 1; i < 64; i++)
		if (sigismember(s, i) == 1)
			m |= u64(1) << i;
	return m;
}
WRAP(int, pthread_sigmask, int how, const sigset_t *s, sigset_t *old) {
	K k;
	step("pthread_sigmask");
	if (old) {
		sigemptyset(old);
		for (int i = 1; i < 64; i++)
			if ((cur->sigmask >> i) & 1)
				sigaddset(old, i);
	}
	if (s) {
		if (kth("pthread_sigmask"))
			return EINVAL;
		u64 m = to_mask(s);
		if (how == SIG_BLOCK)
			cur->sigmask |= m;
		else if (how == SIG_UNBLOCK) {
			u64 hit = m & pending_signals;
			cur->sigmask &= ~m;
			if (hit & cur->sigmask)
				hit = 0;
			if (hit) {  // pending signal becomes deliverable: default action
				pending_signals &= ~hit;
				fatal_signals++;
			}
		} else
			cur->sigmask = m;
		ev("sigmask", how, i64(m));
	}
	return 0;
}
WRAP(int, sigprocmask, int how, const sigset_t *s, sigset_t *old) { return __wrap_pthread_sigmask(how, s, old); }
WRAP(int, signalfd, int fd, const sigset_t *s, int flags) {
	K k;
	step("signalfd");
	if (kth("signalfd"))
		return err(EMFILE);
	if (fd < 0) {
		fd = alloc_fd(SIGNALFD);
		if (fd < 0)
			return -1;
	}
	File *f = file(fd);
	if (!f)
		return err(EBADF);
	f->mask = to_mask(s);
	f->nonblock = f->nonblock || (flags & SFD_NONBLOCK);
	ev("signalfd", fd, i64(f->mask));
	return fd;
}
WRAP(long, ptrace, int, ...) { return 0; }

// ---- sockets
WRAP(int, socket, int family, int type, int) {
	K k;
	step("socket");
	if (kth("socket"))
		return err(choose(2) ? ENOBUFS : EMFILE);
	int fd = alloc_fd((type & 0xf) == SOCK_DGRAM ? UDP : TCP);
	if (fd < 0)
		return -1;
	File *f = file(fd);
	f->family = family;
	f->nonblock = type & SOCK_NONBLOCK;
	ev("socket", fd, type & 0xf);
	return fd;
}
WRAP(int, setsockopt, int fd, int level, int name, const void *val, socklen_t len) {
	K k;
	File *f = use(fd, "setsockopt");
	if (!f)
		return err(EBADF);
	if (kth("setsockopt"))
		return err(choose(2) ? ENOMEM : EINVAL);
	int v = 0;
	memcpy(&v, val, std::min<size_t>(len, sizeof v));
	if (level == SOL_SOCKET && name == SO_SNDBUF && v > 0)
		f->want_sndbuf = size_t(v);
	if (level == SOL_SOCKET && name == SO_RCVBUF && v > 0)
		f->want_rcvbuf = size_t(v);
	if (level == SOL_SOCKET && (name == SO_REUSEADDR || name == SO_REUSEPORT))
		f->reuse = true;
	if (level == IPPROTO_IP && name == IP_ADD_MEMBERSHIP) {
		ip_mreqn m{};
		memcpy(&m, val, std::min<size_t>(len, sizeof m));
		f->group = ntohl(m.imr_multiaddr.s_addr);
	}
	ev("setsockopt", fd, name, v);
	return 0;
}
WRAP(int, getsockopt, int fd, int level, int name, void *val, socklen_t *len) {
	K k;
	File *f = use(fd, "getsockopt");
	if (!f)
		return err(EBADF);
	int v = 0;
	if (level == SOL_SOCKET && name == SO_ERROR) {
		int *e = f->kind == TCP && f->conn ? &f->conn->e[f->side].err : &f->err;
		v = *e;
		*e = 0;
	}
	if (val && len) {
		memcpy(val, &v, std::min<size_t>(*len, sizeof v));
		*len = sizeof v;
	}
	return 0;
}
static int do_fcntl(int fd, int cmd, long arg) {
	K k;
	File *f = use(fd, "fcntl");
	if (!f)
		return err(EBADF);
	switch (cmd) {
	case F_GETFL:
		if (kth("fcntl"))
			return err(EINVAL);
		return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
	case F_SETFL:
		if (kth("fcntl"))
			return err(EINVAL);
		f->nonblock = arg & O_NONBLOCK;
		return 0;
	case F_GETFD: return FD_CLOEXEC;
	case F_SETFD: return 0;
	}
	return err(EINVAL);
}
extern "C" int __real_fcntl(int, int, ...);
extern "C" __attribute__((used)) int __wrap_fcntl(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	if (!active)
		return __real_fcntl(fd, cmd, arg);
	return do_fcntl(fd, cmd, arg);
}
extern "C" __attribute__((used)) int __wrap_fcntl64(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	return do_fcntl(fd, cmd, arg);
}
extern "C" int __real_ioctl(int, unsigned long, ...);
extern "C" __attribute__((used)) int __wrap_ioctl(int fd, unsigned long req, ...) {
	va_list ap;
	va_start(ap, req);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	if (!active)
		return __real_ioctl(fd, req, arg);
	K k;
	File *f = use(fd, "ioctl");
	if (!f)
		return err(EBADF);
	if (req == FIONBIO) {
		f->nonblock = *(int *)arg != 0;
		return 0;
	}
	if (req == FIONREAD) {
		*(int *)arg = f->conn ? int(f->conn->e[f->side].rcvq.size()) : 0;
		return 0;
	}
	return err(EINVAL);
}
WRAP(int, bind, int fd, const sockaddr *sa, socklen_t len) {
	K k;
	File *f = use(fd, "bind");
	if (!f)
		return err(EBADF);
	if (kth("bind"))
		return err(choose(2) ? EADDRINUSE : EACCES);
	u32 ip;
	int port;
	if (!get_addr(sa, len, ip, port))
		return err(EINVAL);
	if (!port)
		port = eph_port();
	if (f->kind == TCP && (listeners->count(port) || raw_listeners->count(port)))
		return err(EADDRINUSE);
	if (f->kind == UDP && !f->reuse)
		for (auto o : *fds)
			if (o && o != f && o->kind == UDP && o->bound && o->port == port)
				return err(EADDRINUSE);
	f->bound = true;
	f->port = port;
	f->ip = ip;
	ev("bind", fd, port);
	return 0;
}
WRAP(int, listen, int fd, int) {
	K k;
	File *f = use(fd, "listen");
	if (!f)
		return err(EBADF);
	if (kth("listen"))
		return err(EADDRINUSE);
	f->kind = LISTEN;
	(*listeners)[f->port] = f;
	ev("listen", fd, f->port);
	return 0;
}
static void fail_connect(File *f, int e) {
	f->st = File::FAILED;
	f->err = e;
	ev("connect_failed", f->fd, e);
	wake(f, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
}
static bool finish_connect(File *f, int port) {
	auto c = make_conn(port);
	c->e[0].file = f;
	c->e[0].rcvbuf = f->want_rcvbuf ? f->want_rcvbuf : cfg.rcvbuf;
	c->e[0].sndbuf = f->want_sndbuf ? f->want_sndbuf : cfg.sndbuf;
	if (f->bound)
		c->e[0].port = f->port;
	f->conn = c;
	f->side = 0;
	f->st = File::CONNECTED;
	if (!establish(c)) {
		f->conn = nullptr;
		return false;
	}
	return true;
}
WRAP(int, connect, int fd, const sockaddr *sa, socklen_t len) {
	K k;
	File *f = use(fd, "connect");
	if (!f)
		return err(EBADF);
	u32 ip;
	int port;
	if (!get_addr(sa, len, ip, port))
		return err(EINVAL);
	if (kth("connect") || fault(F_CONNECT_FAIL_NOW)) {
		static const int es[] = {ENETUNREACH, EADDRNOTAVAIL, EACCES, EHOSTUNREACH, ECONNREFUSED};
		int e = es[choose(5)];
		ev("connect_now_failed", fd, e);
		return err(e);
	}
	if (f->kind == UDP) {
		f->connected = true;
		f->peer_ip = ip;
		f->peer_port = port;
		if (!f->bound) {
			f->bound = true;
			f->port = eph_port();
		}
		ev("udp_connect", fd, port);
		return 0;
	}
	if (f->kind != TCP)
		return err(EINVAL);
	if (f->st == File::CONNECTING)
		return err(EALREADY);
	if (f->st == File::CONNECTED)
		return err(EISCONN);
	bool listening = listeners->count(port) || raw_listeners->count(port);
	if (listening && fault(F_CONNECT_IMMEDIATE)) {
		finish_connect(f, port);
		ev("connect_immediate", fd, port);
		return 0;
	}
	f->st = File::CONNECTING;
	u64 token = ++event_seq;
	f->hup_token = token;
	ev("connect", fd, port);
	i64 delay = 2 * lat();
	int verdict = 0;
	if (fault(F_CONNECT_TIMEOUT)) {
		verdict = ETIMEDOUT;
		delay += range(1, 130) * SEC;
	} else if (fault(F_CONNECT_REFUSED))
		verdict = ECONNREFUSED;
	at(now_ns + delay, [fd, token, port, verdict] {
		File *f = file(fd);
		if (!f || f->hup_token != token || f->st != File::CONNECTING)
			return;
		if (verdict)
			fail_connect(f, verdict);
		else if (!finish_connect(f, port))
			fail_connect(f, ECONNREFUSED);
		else {
			ev("connected", fd, port);
			wake(f, EPOLLOUT);
		}
	});
	if (!f->nonblock) {
		block([f] { return f->st != File::CONNECTING; });
		if (f->st == File::FAILED)
			return err(f->err ? f->err : ECONNREFUSED);
		return 0;
	}
	return err(EINPROGRESS);
}
static int do_accept(int fd, sockaddr *sa, socklen_t *len, int flags) {
	K k;
	File *f = use(fd, "accept");
	if (!f)
		return err(EBADF);
	if (f->kind != LISTEN)
		return err(EINVAL);
	if (f->backlog.empty() && !f->nonblock)
		block([f] { return !f->backlog.empty(); });
	if (fault(F_ACCEPT_EINTR))
		return err(EINTR);
	if (f->backlog.empty()) {
		ev("accept_eagain", fd);
		return err(EAGAIN);
	}
	if (fault(F_ACCEPT_LIMIT)) {
		static const int es[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM};
		int e = es[choose(4)];
		ev("accept_limit", fd, e);
		return err(e);
	}
	if (fault(F_ACCEPT_ODD)) {
		static const int es[] = {ENETDOWN, EPROTO, ENOPROTOOPT, EHOSTDOWN, EHOSTUNREACH, ENETUNREACH, EOPNOTSUPP};
		int e = es[choose(7)];
		ev("accept_odd", fd, e);
		return err(e);
	}
	if (fault(F_ACCEPT_ABORT)) {
		auto c = f->backlog.front();
		f->backlog.pop_front();
		c->e[1].closed = true;
		c->e[1].dead = true;
		end_dies(c, 0, ECONNRESET);
		int e = choose(2) ? EPERM : ECONNABORTED;
		ev("accept_aborted", fd, e, c->id);
		return err(e);
	}
	int nfd = alloc_fd(TCP);
	if (nfd < 0) {
		ev("accept_emfile", fd);
		count_fault(F_ACCEPT_LIMIT);
		return err(EMFILE);
	}
	auto c = f->backlog.front();
	f->backlog.pop_front();
	f->accepted++;
	File *n = file(nfd);
	n->conn = c;
	n->side = 1;
	n->st = File::CONNECTED;
	n->family = f->family;
	n->nonblock = flags & SOCK_NONBLOCK;
	c->e[1].file = n;
	fill_addr(f, sa, len, c->e[0].ip, c->e[0].port);
	ev("accept", fd, nfd, c->id);
	return nfd;
}
WRAP(int, accept4, int fd, sockaddr *sa, socklen_t *len, int flags) { return do_accept(fd, sa, len, flags); }
WRAP(int, accept, int fd, sockaddr *sa, socklen_t *len) { return do_accept(fd, sa, len, 0); }
WRAP(int, getsockname, int fd, sockaddr *sa, socklen_t *len) {
	K k;
	File *f = use(fd, "getsockname");
	if (!f)
		return err(EBADF);
	if (f->conn)
		fill_addr(f, sa, len, f->conn->e[f->side].ip, f->conn->e[f->side].port);
	else
		fill_addr(f, sa, len, f->ip, f->port);
	return 0;
}
WRAP(int, getpeername, int fd, sockaddr *sa, socklen_t *len) {
	K k;
	File *f = use(fd, "getpeername");
	if (!f)
		return err(EBADF);
	if (!f->conn || f->conn->e[f->side].dead)
		return err(ENOTCONN);
	fill_addr(f, sa, len, f->conn->e[1 - f->side].ip, f->conn->e[1 - f->side].port);
	return 0;
}
static ssize_t tcp_recv(File *f, const iovec *iov, int cnt, int flags) {
	if (f->kind != TCP)
		return lerr(f->kind == LISTEN ? ENOTCONN : EINVAL);
	bool nb = f->nonblock || (flags & MSG_DONTWAIT);
	while (true) {
		if (f->st == File::NEW)
			return lerr(ENOTCONN);
		if (f->st == File::FAILED) {
			if (f->err) {
				int e = f->err;
				f->err = 0;
				ev("recv_err", f->fd, e);
				return lerr(e);
			}
			return f->conn ? 0 : lerr(ENOTCONN);
		}
		if (f->st == File::CONNECTING) {
			if (nb) {
				ev("recv_eagain", f->fd);
				return lerr(EAGAIN);
			}
			block([f] { return f->st != File::CONNECTING; });
			continue;
		}
		ConnPtr c = f->conn;
		End &e = c->e[f->side];
		size_t cap = 0;
		for (int i = 0; i < cnt; i++)
			cap += iov[i].iov_len;
		if (!e.rcvq.empty()) {
			size_t n = std::min(cap, e.rcvq.size());
			if (n > 1 && fault(F_SHORT_READ)) {
				n = short_len(n);
				// the remainder "arrives" right after: a new edge is signalled
				if (n < e.rcvq.size())
					wake(f, EPOLLIN);
			}
			size_t off = 0;
			for (int i = 0; i < cnt && off < n; i++) {
				size_t m = std::min(iov[i].iov_len, n - off);
				memcpy(iov[i].iov_base, e.rcvq.data() + off, m);
				off += m;
			}
			if (!(flags & MSG_PEEK)) {
				e.rcvq.erase(0, n);
				End &p = c->e[1 - f->side];
				if (p.win_blocked) {
					p.win_blocked = false;
					kick(c, 1 - f->side);
				}
			}
			e.rx_total += n;
			ev("recv", f->fd, i64(n));
			return ssize_t(n);
		}
		if (cap == 0)
			return 0;
		if (e.err) {
			int er = e.err;
			e.err = 0;
			ev("recv_err", f->fd, er);
			return lerr(er);
		}
		if (e.fin_rcvd || e.dead || e.shut_rd) {
			ev("recv_eof", f->fd);
			return 0;
		}
		if (nb) {
			ev("recv_eagain", f->fd);
			return lerr(EAGAIN);
		}
		ev("recv_blocks", f->fd);
		block([f] {
			End &e = f->conn->e[f->side];
			return !e.rcvq.empty() || e.err || e.fin_rcvd || e.dead;
		});
	}
}
static ssize_t tcp_send(File *f, const iovec *iov, int cnt, int flags) {
	if (f->kind != TCP)
		return lerr(EINVAL);
	bool nb = f->nonblock || (flags & MSG_DONTWAIT);
	if (!(flags & MSG_NOSIGNAL) && (f->st == File::NEW || f->st == File::FAILED || (f->conn && f->conn->e[f->side].dead && !f->conn->e[f->side].err)))
		fail("sigpipe", "send without MSG_NOSIGNAL on a broken connection would kill the process");
	while (true) {
		if (f->st == File::NEW)
			return lerr(EPIPE);
		if (f->st == File::FAILED) {
			int e = f->err ? f->err : EPIPE;
			f->err = 0;
			ev("send_err", f->fd, e);
			return lerr(e);
		}
		if (f->st == File::CONNECTING) {
			if (nb) {
				ev("send_eagain", f->fd);
				return lerr(EAGAIN);
			}
			block([f] { return f->st != File::CONNECTING; });
			continue;
		}
		ConnPtr c = f->conn;
		End &e = c->e[f->side];
		if (e.err) {
			int er = e.err;
			e.err = 0;
			ev("send_err", f->fd, er);
			return lerr(er);
		}
		if (e.shut_wr || e.dead) {
			ev("send_epipe", f->fd);
			return lerr(EPIPE);
		}
		size_t total = 0;
		for (int i = 0; i < cnt; i++)
			total += iov[i].iov_len;
		if (total == 0)
			return 0;
		size_t room = e.stalled ? 0 : e.wspace();
		if (room && fault(F_SEND_EAGAIN)) {  // memory pressure: no room for a while
			e.stalled = true;
			room = 0;
			int side = f->side;
			at(now_ns + range(1, 50) * MS, [c, side] {
				End &e = c->e[side];
				e.stalled = false;
				if (e.file && e.nospace) {
					e.nospace = false;
					wake(e.file, EPOLLOUT);
				}
			});
		}
		if (!room) {
			e.nospace = true;
			if (nb) {
				ev("send_eagain", f->fd);
				return lerr(EAGAIN);
			}
			ev("send_blocks", f->fd);
			block([f] {
				End &e = f->conn->e[f->side];
				return (!e.stalled && e.wspace() > 0) || e.err || e.dead;
			});
			continue;
		}
		size_t n = std::min(total, room);
		if (n > 1 && fault(F_SHORT_WRITE)) {
			n = short_len(n);
			at(now_ns + lat() + 1, [c, s = f->side] {
				if (c->e[s].file) {
					c->e[s].nospace = false;
					wake(c->e[s].file, EPOLLOUT);
				}
			});
		}
		if (n < total)
			e.nospace = true;
		size_t left = n;
		for (int i = 0; i < cnt && left; i++) {
			size_t m = std::min(iov[i].iov_len, left);
			e.sndq.append((const char *)iov[i].iov_base, m);
			left -= m;
		}
		e.tx_total += n;
		ev("send", f->fd, i64(n));
		kick(c, f->side);
		return ssize_t(n);
	}
}
static ssize_t udp_recv(File *f, void *buf, size_t len, int flags, sockaddr *sa, socklen_t *slen, bool *trunc) {
	while (true) {
		if (f->err) {
			int e = f->err;
			f->err = 0;
			ev("udp_err", f->fd, e);
			return lerr(e);
		}
		if (!f->dq.empty() && fault(F_UDP_RXERR)) {
			static const int es[] = {ENETDOWN, ENOMEM, ENOBUFS, ECONNREFUSED, EHOSTUNREACH};
			int e = es[choose(5)];
			ev("udp_rxerr", f->fd, e);
			return lerr(e);
		}
		if (!f->dq.empty()) {
			Dgram d = f->dq.front();
			f->dq.pop_front();
			f->dq_bytes -= d.data.size() + 100;
			size_t n = std::min(len, d.data.size());
			memcpy(buf, d.data.data(), n);
			if (sa)
				fill_addr(f, sa, slen, d.ip, d.port);
			if (trunc)
				*trunc = n < d.data.size();
			ev("udp_recv", f->fd, i64(n), d.port);
			return ssize_t((flags & MSG_TRUNC) ? d.data.size() : n);
		}
		if (f->nonblock || (flags & MSG_DONTWAIT)) {
			ev("udp_eagain", f->fd);
			return lerr(EAGAIN);
		}
		block([f] { return f->err || !f->dq.empty(); });
	}
}
static ssize_t udp_send(File *f, const std::string &d, const sockaddr *sa, socklen_t slen) {
	u32 ip = f->peer_ip;
	int port = f->peer_port;
	if (sa) {
		if (!get_addr(sa, slen, ip, port))
			return lerr(EINVAL);
	} else if (!f->connected)
		return lerr(EDESTADDRREQ);
	if (f->err) {
		int e = f->err;
		f->err = 0;
		ev("udp_send_err", f->fd, e);
		return lerr(e);
	}
	if (d.size() > 65507)
		return lerr(EMSGSIZE);
	if (!f->bound) {
		f->bound = true;
		f->port = eph_port();
	}
	if (!f->tx_full && fault(F_UDP_EAGAIN)) {
		f->tx_full = true;
		int fd = f->fd;
		at(now_ns + range(1, 50) * MS / 5, [f, fd] {
			if (file(fd) != f)
				return;
			f->tx_full = false;
			wake(f, EPOLLOUT);
		});
	}
	if (f->tx_full) {
		if (f->nonblock) {
			ev("udp_send_eagain", f->fd);
			return lerr(EAGAIN);
		}
		block([f] { return !f->tx_full; });
	}
	ev("udp_send", f->fd, i64(d.size()), port);
	udp_sent.push_back(UdpSent{d, f->port, port, ++udp_id, f->fd});
	udp_send_net(f->ip, f->port, ip, port, d);
	return ssize_t(d.size());
}
static std::string gather(const iovec *iov, int cnt) {
	std::string s;
	for (int i = 0; i < cnt; i++)
		s.append((const char *)iov[i].iov_base, iov[i].iov_len);
	return s;
}
WRAP(ssize_t, recv, int fd, void *b, size_t n, int flags) {
	K k;
	File *f = use(fd, "recv");
	if (!f)
		return lerr(EBADF);
	if (f->kind == UDP)
		return udp_recv(f, b, n, flags, nullptr, nullptr, nullptr);
	iovec v{b, n};
	return tcp_recv(f, &v, 1, flags);
}
WRAP(ssize_t, recvfrom, int fd, void *b, size_t n, int flags, sockaddr *sa, socklen_t *sl) {
	K k;
	File *f = use(fd, "recvfrom");
	if (!f)
		return lerr(EBADF);
	if (f->kind == UDP)
		return udp_recv(f, b, n, flags, sa, sl, nullptr);
	iovec v{b, n};
	return tcp_recv(f, &v, 1, flags);
}
static ssize_t do_recvmsg(File *f, msghdr *m, int flags) {
	if (f->kind == UDP) {
		size_t cap = 0;
		for (size_t i = 0; i < m->msg_iovlen; i++)
			cap += m->msg_iov[i].iov_len;
		std::vector<char> tmp(cap + 1);
		bool tr = false;
		socklen_t sl = m->msg_namelen;
		ssize_t r = udp_recv(f, tmp.data(), cap, flags, (sockaddr *)m->msg_name, &sl, &tr);
		if (r < 0)
			return r;
		m->msg_namelen = sl;
		m->msg_flags = tr ? MSG_TRUNC : 0;
		size_t off = 0, n = std::min<size_t>(size_t(r), cap);
		for (size_t i = 0; i < m->msg_iovlen && off < n; i++) {
			size_t q = std::min(m->msg_iov[i].iov_len, n - off);
			memcpy(m->msg_iov[i].iov_base, tmp.data() + off, q);
			off += q;
		}
		return r;
	}
	return tcp_recv(f, m->msg_iov, int(m->msg_iovlen), flags);
}
WRAP(ssize_t, recvmsg, int fd, msghdr *m, int flags) {
	K k;
	File *f = use(fd, "recvmsg");
	return f ? do_recvmsg(f, m, flags) : lerr(EBADF);
}
WRAP(int, recvmmsg, int fd, mmsghdr *v, unsigned n, int flags, timespec *) {
	K k;
	File *f = use(fd, "recvmmsg");
	if (!f)
		return err(EBADF);
	unsigned i = 0;
	for (; i < n; i++) {
		ssize_t r = do_recvmsg(f, &v[i].msg_hdr, flags | (i ? MSG_DONTWAIT : 0));
		if (r < 0)
			return i ? int(i) : -1;
		v[i].msg_len = unsigned(r);
	}
	return int(i);
}
WRAP(ssize_t, send, int fd, const void *b, size_t n, int flags) {
	K k;
	File *f = use(fd, "send");
	if (!f)
		return lerr(EBADF);
	if (f->kind == UDP)
		return udp_send(f, std::string((const char *)b, n), nullptr, 0);
	iovec v{(void *)b, n};
	return tcp_send(f, &v, 1, flags);
}
WRAP(ssize_t, sendto, int fd, const void *b, size_t n, int flags, const sockaddr *sa, socklen_t sl) {
	K k;
	File *f = use(fd, "sendto");
	if (!f)
		return lerr(EBADF);
	if (f->kind == UDP)
		return udp_send(f, std::string((const char *)b, n), sa, sl);
	iovec v{(void *)b, n};
	return tcp_send(f, &v, 1, flags);
}
WRAP(ssize_t, sendmsg, int fd, const msghdr *m, int flags) {
	K k;
	File *f = use(fd, "sendmsg");
	if (!f)
		return lerr(EBADF);
	if (f->kind == UDP)
		return udp_send(f, gather(m->msg_iov, int(m->msg_iovlen)), (const sockaddr *)m->msg_name, m->msg_namelen);
	return tcp_send(f, m->msg_iov, int(m->msg_iovlen), flags);
}
WRAP(int, sendmmsg, int fd, mmsghdr *v, unsigned n, int flags) {
	unsigned i = 0;
	for (; i < n; i++) {
		ssize_t r = __wrap_sendmsg(fd, &v[i].msg_hdr, flags);
		if (r < 0)
			return i ? int(i) : -1;
		v[i].msg_len = unsigned(r);
	}
	return int(i);
}
static ssize_t do_read(int fd, const iovec *iov, int cnt, const char *op) {
	K k;
	File *f = use(fd, op);
	if (!f)
		return lerr(EBADF);
	if (f->kind == EVENTFD) {
		if (!cnt || iov[0].iov_len < 8)
			return lerr(EINVAL);
		u64 v = 0;
		if (do_eventfd_read(f, &v) < 0)
			return -1;
		memcpy(iov[0].iov_base, &v, 8);
		return 8;
	}
	if (f->kind == SIGNALFD) {
		if (!cnt || iov[0].iov_len < sizeof(signalfd_siginfo))
			return lerr(EINVAL);
		if (!sig_readable(f)) {
			if (f->nonblock) {
				ev("signalfd_eagain", fd);
				return lerr(EAGAIN);
			}
			ev("signalfd_blocks", fd);
			block([f] { return sig_readable(f); });
		}
		size_t n = iov[0].iov_len / sizeof(signalfd_siginfo), got = 0;
		for (int s = 1; s < 64 && got < n; s++)
			if ((pending_signals & f->mask) >> s & 1) {
				signalfd_siginfo si{};
				si.ssi_signo = u32(s);
				memcpy((char *)iov[0].iov_base + got * sizeof si, &si, sizeof si);
				got++;
				pending_signals &= ~(u64(1) << s);
			}
		ev("signalfd_read", fd, i64(got));
		return ssize_t(got * sizeof(signalfd_siginfo));
	}
	if (f->kind == UDP)
		return udp_recv(f, iov[0].iov_base, iov[0].iov_len, 0, nullptr, nullptr, nullptr);
	return tcp_recv(f, iov, cnt, 0);
}
REAL(ssize_t, read, int, void *, size_t);
WRAP(ssize_t, read, int fd, void *b, size_t n) {
	if (!active)
		return __real_read(fd, b, n);
	iovec v{b, n};
	return do_read(fd, &v, 1, "read");
}
WRAP(ssize_t, readv, int fd, const iovec *v, int n) { return do_read(fd, v, n, "readv"); }
static ssize_t do_write(int fd, const iovec *iov, int cnt, const char *op) {
	K k;
	File *f = use(fd, op);
	if (!f)
		return lerr(EBADF);
	if (f->kind == EVENTFD) {
		u64 v;
		memcpy(&v, iov[0].iov_base, 8);
		do_eventfd_write(f, v);
		return 8;
	}
	if (f->kind == UDP)
		return udp_send(f, gather(iov, cnt), nullptr, 0);
	return tcp_send(f, iov, cnt, 0);
}
REAL(ssize_t, write, int, const void *, size_t);
WRAP(ssize_t, write, int fd, const void *b, size_t n) {
	if (!active)
		return __real_write(fd, b, n);
	iovec v{(void *)b, n};
	return do_write(fd, &v, 1, "write");
}
WRAP(ssize_t, writev, int fd, const iovec *v, int n) { return do_write(fd, v, n, "writev"); }
WRAP(int, shutdown, int fd, int how) {
	K k;
	File *f = use(fd, "shutdown");
	if (!f)
		return err(EBADF);
	ev("shutdown", fd, how);
	if (!tcp_conn(f) || !f->conn || f->st != File::CONNECTED || f->conn->e[f->side].dead)
		return err(ENOTCONN);
	if (how == SHUT_WR || how == SHUT_RDWR)
		end_write_shutdown(f->conn, f->side);
	if (how == SHUT_RD || how == SHUT_RDWR)
		f->conn->e[f->side].shut_rd = true;
	End &e = f->conn->e[f->side];
	wake(f, EPOLLOUT | ((e.fin_rcvd) ? EPOLLHUP : 0));
	return 0;
}
REAL(int, close, int);
WRAP(int, close, int fd) {
	if (!active)
		return __real_close(fd);
	K k;
	step("close");
	if (fd < 0) {
		return err(EBADF);
	}
	if (fd < FD0)
		fail("foreign-fd", "close of descriptor %d which the library never obtained", fd);
	File *f = file(fd);
	if (!f)
		fail("double-close", "close of descriptor %d which is not open", fd);
	ev("close", fd);
	while (!f->watch.empty())
		drop_item(f->watch.back());
	if (f->kind == EPOLL)
		while (!f->items.empty())
			drop_item(f->items.begin()->second);
	if (f->kind == LISTEN) {
		listeners->erase(f->port);
		for (auto &c : f->backlog) {
			c->e[1].closed = c->e[1].dead = true;
			send_rst(c, 0);
		}
	}
	if (f->kind == TCP && f->conn)
		end_close(f->conn, f->side);
	(*fds)[fd - FD0] = nullptr;
	delete f;
	return 0;
}
WRAP(int, poll, pollfd *p, nfds_t n, int timeout) {
	K k;
	step("poll");
	auto check = [p, n] {
		int r = 0;
		for (nfds_t i = 0; i < n; i++) {
			File *f = file(p[i].fd);
			p[i].revents = f ? short(poll_mask(f) & (u32(p[i].events) | EPOLLERR | EPOLLHUP)) : short(POLLNVAL);
			r += p[i].revents != 0;
		}
		return r;
	};
	int r = check();
	if (r || !timeout)
		return r;
	block([check] { return check() != 0; }, timeout < 0 ? INT64_MAX : now_ns + i64(timeout) * MS);
	return check();
}
WRAP(unsigned, if_nametoindex, const char *name) { return !strcmp(name, "eth0") || !strcmp(name, "lo") ? 1 : 0; }

// ---- name resolution
static i64 addrinfo_live;
WRAP(int, getaddrinfo, const char *host, const char *service, const addrinfo *hints, addrinfo **res) {
	K k;
	step("getaddrinfo");
	int family = hints ? hints->ai_family : AF_UNSPEC;
	int port = service ? atoi(service) : 0;
	DnsAnswer a;
	std::string h = host;
	if (dns_model)
		a = dns_model(h, family, port);
	ev("getaddrinfo", i64(h.size()), family, port);
	if (a.delay)
		block([] { return false; }, now_ns + a.delay);
	step("getaddrinfo");
	if (!a.ok)
		return EAI_NONAME;
	addrinfo *first = nullptr, **tail = &first;
	for (auto &x : a.addrs) {
		int fam = x.second == 6 ? AF_INET6 : AF_INET;
		if (family != AF_UNSPEC && fam != family)
			continue;
		auto n = (addrinfo *)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_storage));
		n->ai_family = fam;
		n->ai_socktype = hints ? hints->ai_socktype : SOCK_STREAM;
		n->ai_addr = (sockaddr *)(n + 1);
		if (fam == AF_INET) {
			auto s = (sockaddr_in *)n->ai_addr;
			s->sin_family = AF_INET;
			s->sin_port = htons(uint16_t(port));
			inet_pton(AF_INET, x.first.c_str(), &s->sin_addr);
			n->ai_addrlen = sizeof *s;
		} else {
			auto s = (sockaddr_in6 *)n->ai_addr;
			s->sin6_family = AF_INET6;
			s->sin6_port = htons(uint16_t(port));
			inet_pton(AF_INET6, x.first.c_str(), &s->sin6_addr);
			n->ai_addrlen = sizeof *s;
		}
		*tail = n;
		tail = &n->ai_next;
		addrinfo_live++;
	}
	if (!first)
		return EAI_NONAME;
	*res = first;
	return 0;
}
WRAP(void, freeaddrinfo, addrinfo *p) {
	while (p) {
		auto n = p->ai_next;
		free(p);
		addrinfo_live--;
		p = n;
	}
}
