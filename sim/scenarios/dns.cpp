// C13: DNSResolver requests, cancellation, several loops.
#include "common.hpp"
#include <thread>

namespace {
struct Answer {
	bool ok = false;
	i64 delay = 0;
	std::vector<std::pair<std::string, int>> addrs;
	int asked = 0;
};
struct Ctx;
struct Res {
	Ctx *c = nullptr;
	int id = 0;
	std::unique_ptr<crab::DNSResolver> d;
	bool resolving = false;
	std::string host;
	int port = 0;
	bool v4 = false, v6 = false;
	i64 since = 0;
	u64 answers = 0, asked = 0, cancelled = 0;

	void make();
	void handler(const std::vector<crab::Address> &names);
	void resolve();
	void cancel();
	void check_open() { SIM_CHECK(d->is_open() == resolving, "is_open", "resolver %d: is_open() is %d, %s", id, int(d->is_open()), resolving ? "an answer is owed" : "nothing was asked"); }
};
struct Ctx {
	int id = 0, thread = 0;
	std::vector<std::unique_ptr<Res>> rs;
	std::unique_ptr<crab::Timer> tm;
	std::unique_ptr<crab::Watcher> other;
	int ops = 0;
	bool frozen = false;
	void op();
	bool idle() {
		if (ops > 0)
			return false;
		for (auto &r : rs)
			if (r->resolving)
				return false;
		return true;
	}
};
std::map<std::string, Answer> *book;
u32 serial;

std::vector<std::string> expected(const Answer &a, bool v4, bool v6, int port) {
	std::vector<std::string> r;
	if (!a.ok)
		return r;
	for (auto &x : a.addrs)
		if (x.second == 6 ? v6 : v4)
			r.push_back(x.first + ":" + std::to_string(port));
	return r;
}
void Res::make() {
	d.reset(new crab::DNSResolver([this](const std::vector<crab::Address> &n) { handler(n); }));
	resolving = false;
}
void Res::resolve() {
	std::string h = "h" + std::to_string(++serial);
	Answer a;
	a.ok = choose(5) != 0;
	if (!a.ok)
		count_fault(F_DNS_FAIL);
	a.delay = choose(3) == 0 ? 0 : range(0, choose(4) ? 20 : 2000) * MS;
	int n = int(choose(4));
	for (int i = 0; i < n; i++) {
		if (choose(3))
			a.addrs.emplace_back("10." + std::to_string(serial >> 8) + "." + std::to_string(serial & 255) + "." + std::to_string(1 + i), 4);
		else {
			char b[64];
			snprintf(b, sizeof b, "fd00::%x:%x", serial, i + 1);
			a.addrs.emplace_back(b, 6);
		}
	}
	(*book)[h] = a;
	if (resolving)
		PROBE("resolve_replaces");
	host = h;
	port = int(range(1, 65535));
	v4 = choose(4) != 0;
	v6 = choose(2);
	resolving = true;
	since = now();
	asked++;
	ev("resolve", id, i64(serial));
	d->resolve(host, uint16_t(port), v4, v6);
	check_open();
}
void Res::cancel() {
	ev("cancel", id);
	if (resolving && (*book)[host].asked)
		PROBE("cancel_in_flight");
	cancelled += resolving;
	resolving = false;
	d->cancel();
	check_open();
}
void Res::handler(const std::vector<crab::Address> &names) {
	ev("answer", id, i64(names.size()));
	SIM_CHECK(thread_id() == c->thread, "wrong-thread", "resolver %d: answered on thread %d, its loop runs on %d", id, thread_id(), c->thread);
	SIM_CHECK(resolving, "answer-not-owed", "resolver %d: handler called though nothing is being resolved (asked %d, answered %d, cancelled %d)", id, int(asked), int(answers), int(cancelled));
	resolving = false;
	answers++;
	check_open();
	auto compare = [&] {
		auto want = expected((*book)[host], v4, v6, port);
		std::vector<std::string> got;
		for (auto &n : names)
			got.push_back(n.to_string());
		if (want != got) {
			std::string a, b;
			for (auto &x : want)
				a += x + " ";
			for (auto &x : got)
				b += x + " ";
			fail("wrong-answer", "resolver %d, host %s: got [%s], expected [%s]", id, host.c_str(), b.c_str(), a.c_str());
		}
	};
	compare();
	if (!c->frozen) {
		switch (choose(8)) {
		case 0: {
			std::string h = host;
			int p = port;
			bool a = v4, b = v6;
			size_t n = names.size();
			resolve();
			if (choose(2))
				busy(range(0, 50) * MS);
			yield();
			SIM_CHECK(names.size() == n, "answer-changed", "resolver %d: the answer changed from %d to %d addresses while its handler was using it", id, int(n), int(names.size()));
			for (size_t i = 0; i < n; i++)
				SIM_CHECK(names[i].to_string() == expected((*book)[h], a, b, p)[i], "answer-changed", "resolver %d: address %d changed while the handler was using it", id, int(i));
			break;
		}
		case 1: {
			PROBE("destroy_self_in_handler");
			d.reset();
			make();
			return;
		}
		case 2: {
			Res &o = *c->rs[choose(u32(c->rs.size()))];
			o.cancel();
			break;
		}
		case 3: {
			Res &o = *c->rs[choose(u32(c->rs.size()))];
			if (&o != this) {
				o.d.reset();
				o.make();
			}
			break;
		}
		default: break;
		}
	}
}
void Ctx::op() {
	if (rs.empty())
		return;
	Res &r = *rs[choose(u32(rs.size()))];
	r.check_open();
	switch (weighted({6, 2, 1})) {
	case 0: r.resolve(); break;
	case 1: r.cancel(); break;
	case 2:
		ev("destroy", r.id);
		if (r.resolving)
			PROBE("destroy_resolving");
		r.d.reset();
		r.make();
		break;
	}
}
void setup(Ctx &c, int nres) {
	c.thread = thread_id();
	for (int i = 0; i < nres; i++) {
		c.rs.emplace_back(new Res);
		c.rs.back()->c = &c;
		c.rs.back()->id = c.id * 10 + i;
		c.rs.back()->make();
	}
	c.other.reset(new crab::Watcher([] {}));
	c.tm.reset(new crab::Timer([&c] {
		if (c.ops > 0) {
			c.ops--;
			c.op();
			if (choose(3) == 0)
				c.op();
		}
		if (choose(4) == 0)
			c.other->call();
		if (c.ops > 0)
			c.tm->once(double(choose(3) ? range(0, 3000) : range(0, 300000)) / 1e6);
	}));
	c.tm->once(0.0);
}
}  // namespace

SCENARIO(dns) {
	swarm({F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_LATE_WAKE, F_EPOLL_PARTIAL, F_EPOLL_REORDER, F_CV_SPURIOUS});
	static const u32 pre[] = {0, 50, 300};
	cfg.preempt = pre[choose(3)];
	static const u32 fine[] = {0, 400, 60, 12};
	cfg.fine_preempt = fine[choose(4)];
	book = new std::map<std::string, Answer>;
	serial = 0;
	dns_model = [](const std::string &h, int family, int) {
		DnsAnswer r;
		(void)family;
		auto it = book->find(h);
		if (it == book->end())
			fail("wrong-host", "the resolver asked for \"%s\", which nobody wanted", h.c_str());
		it->second.asked++;
		SIM_CHECK(it->second.asked == 1, "asked-twice", "host %s was looked up %d times", h.c_str(), it->second.asked);
		r.ok = it->second.ok;
		r.delay = it->second.delay;
		r.addrs = it->second.addrs;
		return r;
	};
	crab::RunLoop rl;
	Ctx a;
	a.id = 0;
	a.ops = int(size_log(1, 20));
	setup(a, 1 + int(choose(3)));
	int nt = int(choose(3));
	std::vector<std::unique_ptr<Ctx>> cs;
	std::vector<crab::Watcher *> stop(size_t(nt), nullptr);
	std::vector<char> stopped(size_t(nt), 0);
	int ended = 0;
	for (int t = 0; t < nt; t++) {
		cs.emplace_back(new Ctx);
		Ctx *c = cs.back().get();
		c->id = t + 1;
		c->ops = int(size_log(1, 15));
		int n = 1 + int(choose(3));
		spawn([c, n, t, &stop, &stopped, &ended] {
			crab::RunLoop l;
			setup(*c, n);
			crab::Watcher w([&l] { l.cancel(); });
			stop[size_t(t)] = &w;
			l.run();
			while (!stopped[size_t(t)])  // call() must have returned before its watcher goes
				std::this_thread::sleep_for(std::chrono::milliseconds(1));
			c->rs.clear();
			c->tm.reset();
			c->other.reset();
			ended++;
		});
	}
	auto done = [&] {
		if (!a.idle())
			return false;
		for (auto &c : cs)
			if (!c->idle())
				return false;
		for (auto s : stop)
			if (!s)
				return false;
		return true;
	};
	bool early = choose(4) == 0;  // sometimes the loops end while answers are owed
	run_until(rl, early ? range(0, 300) * MS : 300 * SEC, done);
	auto finish_ctx = [&](Ctx &c) {
		for (auto &r : c.rs) {
			if (!early)
				SIM_CHECK(!r->resolving, "no-answer", "resolver %d: host %s was asked at %.3f, no answer by %.3f", r->id, r->host.c_str(), r->since / 1e9, now() / 1e9);
			if (r->answers)
				nontrivial();
		}
	};
	finish_ctx(a);
	for (auto &c : cs)
		finish_ctx(*c);
	a.frozen = true;
	for (auto &c : cs)
		c->frozen = true;
	if (early) {
		a.ops = 0;
		for (auto &c : cs)
			c->ops = 0;
	}
	if (choose(2))
		a.rs.clear();
	run_until(rl, 10 * SEC, [&] {
		for (auto s : stop)
			if (!s)
				return false;
		return true;
	});
	for (int t = 0; t < nt; t++) {
		SIM_CHECK(stop[size_t(t)] != nullptr, "loop-stuck", "a thread did not start its loop");
		stop[size_t(t)]->call();
		stopped[size_t(t)] = 1;
	}
	run_until(rl, 300 * SEC, [&] { return ended == nt; });
	SIM_CHECK(ended == nt, "loop-stuck", "%d of %d loops ended", ended, nt);
	join_all();
	a.rs.clear();
	// static destruction at process exit, lookups possibly in flight
	exit_process();
	SIM_CHECK(live_threads() == 1, "exit", "%d threads are left after static destruction", live_threads() - 1);
	drop_events();
}
