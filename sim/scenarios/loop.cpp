// C05: idle handlers, fairness, no spinning. C04: cancel() and crab::Thread.
#include "common.hpp"
#include <thread>

namespace {
struct World;
struct I {
	World *w;
	int id;
	std::unique_ptr<crab::Idle> idle;
	bool active = false;
	u64 runs = 0, spell = 0;       // spell: changes with every activation change
	u64 last_spell = 0;            // spell at its last run
	std::map<int, std::pair<u64, u64>> seen;  // other idle -> (spell, runs) at my last run
};
struct T {
	std::unique_ptr<crab::Timer> t;
	bool armed = false;
	i64 deadline = 0;
};
struct World {
	crab::RunLoop rl;
	std::vector<std::unique_ptr<I>> is;
	std::vector<std::unique_ptr<T>> ts;
	std::unique_ptr<crab::Watcher> wat;
	std::unique_ptr<crab::TCPSocket> sock;
	RawPtr peer;
	u64 got = 0;
	bool wat_owed = false, wat_owed_at_enter = false, data_at_enter = false;
	i64 now_at_enter = 0, enter = 0, enter_busy = 0;
	u64 wat_missed = 0, data_missed = 0;
	int ops = 0;
	u64 handlers = 0, idle_runs = 0;
	bool strict = false;

	I &make(int id) {
		is.emplace_back(new I);
		I *x = is.back().get();
		x->w = this;
		x->id = id;
		x->idle.reset(new crab::Idle([this, x] { on_idle(*x); }));
		x->active = true;
		x->spell++;
		return *x;
	}
	void set(I &x, bool a) {
		if (!x.idle || x.active == a)
			return;
		ev("idle_set", x.id, a);
		x.idle->set_active(a);
		x.active = a;
		x.spell++;
		SIM_CHECK(x.idle->is_active() == a, "is_active", "idle %d: is_active() is %d after set_active(%d)", x.id, int(!a), int(a));
	}
	void op() {
		switch (weighted({4, 2, 2, 2, 1})) {
		case 0: {
			I &x = *is[choose(u32(is.size()))];
			set(x, !x.active);
			break;
		}
		case 1: {
			T &t = *ts[choose(u32(ts.size()))];
			i64 d = choose(3) ? range(0, 30) * MS : range(0, 900) * US;
			t.armed = true;
			t.t->cancel();
			t.t->once(dur(d));
			t.deadline = loop_now() + d;
			break;
		}
		case 2:
			wat_owed = true;
			wat->call();
			break;
		case 3: busy(range(0, 2000) * US); break;
		case 4: {
			I &x = *is[choose(u32(is.size()))];
			ev("idle_destroy", x.id);
			x.active = false;
			x.idle.reset();
			x.spell++;
			break;
		}
		}
	}
	void run_ops() {
		for (u32 n = weighted({6, 3, 1}); n && ops > 0; n--) {
			ops--;
			op();
		}
	}
	void on_idle(I &x) {
		ev("idle", x.id);
		idle_runs++;
		SIM_CHECK(x.active, "inactive-run", "idle %d runs although it is %s", x.id, x.idle ? "not active" : "destroyed");
		for (auto &t : ts)
			SIM_CHECK(!t->armed || t->deadline > now_at_enter, "timer-waits", "idle %d runs while a timer expired %.6f s ago waits", x.id, (now_at_enter - t->deadline) / 1e9);
		if (wat_owed_at_enter && wat_owed)
			SIM_CHECK(!strict && ++wat_missed < 200, "watcher-waits", "idle %d runs while a watcher that was called earlier waits", x.id);
		else
			wat_missed = 0;
		if (data_at_enter && !peek_rcvq(fd()).empty())
			SIM_CHECK(!strict && ++data_missed < 200, "io-waits", "idle %d runs while received data waits", x.id);
		else
			data_missed = 0;
		// exactly one run of every other idle that was active all the time since my last run
		if (x.last_spell == x.spell)
			for (auto &y : is) {
				if (y.get() == &x || !y->active)
					continue;
				auto it = x.seen.find(y->id);
				if (it != x.seen.end() && it->second.first == y->spell)
					SIM_CHECK(y->runs == it->second.second + 1, "unfair", "between two runs of idle %d, idle %d (active all the time) ran %d times", x.id, y->id, int(y->runs - it->second.second));
			}
		x.runs++;
		x.last_spell = x.spell;
		for (auto &y : is)
			if (y.get() != &x && y->active)
				x.seen[y->id] = {y->spell, y->runs};
			else
				x.seen.erase(y->id);
		busy(range(1, 300) * US);
		I *px = &x;
		if (ops > 0 && choose(20) == 0) {
			ops--;
			px->active = false;
			px->spell++;
			PROBE("idle_destroys_itself");
			World *w = this;
			px->idle.reset();
			w->run_ops();
			return;
		}
		run_ops();
	}
	int fd() {
		auto v = open_fds("tcp");
		return v.empty() ? -1 : v[0];
	}
	bool any_idle() {
		for (auto &x : is)
			if (x->active)
				return true;
		return false;
	}
	void on_enter(int timeout) {
		enter = now();
		enter_busy = busy_total;
		now_at_enter = ns(rl.now());
		wat_owed_at_enter = wat_owed;
		int f = fd();
		data_at_enter = f >= 0 && !peek_rcvq(f).empty();
		if (any_idle())
			SIM_CHECK(timeout == 0, "sleeps-with-idle", "the loop sleeps (timeout %d) although an idle handler is active", timeout);
		else {
			bool due = wat_owed;
			for (auto &t : ts)
				due = due || (t->armed && t->deadline <= now());
			SIM_CHECK(timeout != 0 || due, "spins", "the loop polls without sleeping although no idle is active and nothing is due");
		}
	}
	void on_leave() {
		i64 woke = now() - (busy_total - enter_busy);
		if (wat_owed)
			SIM_CHECK(woke <= enter, "slept-while-owed", "the loop slept from %.6f to %.6f while a watcher run was owed", enter / 1e9, woke / 1e9);
	}
};
}  // namespace

SCENARIO(idles) {
	if (choose(3) != 0)
		swarm({F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_LATE_WAKE, F_EPOLL_PARTIAL, F_EPOLL_REORDER});
	World w;
	w.strict = !fault_rate[F_EPOLL_EINTR] && !fault_rate[F_EPOLL_SPURIOUS] && !fault_rate[F_EPOLL_PARTIAL];
	w.ops = int(size_log(4, 150));
	int ni = 1 + int(choose(5));
	for (int i = 0; i < ni; i++) {
		I &x = w.make(i);
		if (choose(3) == 0)
			w.set(x, false);
	}
	int nt = 1 + int(choose(3));
	for (int i = 0; i < nt; i++) {
		w.ts.emplace_back(new T);
		T *t = w.ts.back().get();
		t->t.reset(new crab::Timer([&w, t] {
			t->armed = false;
			w.handlers++;
			w.run_ops();
		}));
	}
	w.wat.reset(new crab::Watcher([&w] {
		w.wat_owed = false;
		w.handlers++;
		w.run_ops();
	}));
	// some I/O
	raw_listen(7000, [&w](RawPtr r) {
		w.peer = r;
		i64 t = 0;
		for (int i = int(choose(12)); i > 0; i--) {
			t += range(0, 20) * MS;
			after(t, [r] { r->send(std::string(1 + choose(500), 'x')); });
		}
	});
	w.sock.reset(new crab::TCPSocket([&w] {
		u8 b[4096];
		while (size_t n = w.sock->read_some(b, sizeof b))
			w.got += n;
		w.handlers++;
		w.run_ops();
	}));
	if (choose(2))
		w.sock->connect(addr(7000));
	w.op();
	on_epoll_enter = [&w](int, int t) { w.on_enter(t); };
	on_epoll_leave = [&w] { w.on_leave(); };
	run_for(w.rl, range(50, 600) * MS);
	if (w.idle_runs && w.handlers)
		nontrivial();
	// nothing is active and nothing is due: the loop must sleep
	stop_faults();
	w.ops = 0;
	for (auto &x : w.is)
		w.set(*x, false);
	run_for(w.rl, 2 * SEC);
	for (auto &t : w.ts)
		SIM_CHECK(!t->armed, "lost-timer", "a timer due at %.6f did not run by %.6f", t->deadline / 1e9, now() / 1e9);
	SIM_CHECK(!w.wat_owed, "lost-call", "a watcher run is still owed");
	if (w.peer)
		SIM_CHECK(w.got == w.peer->sent, "lost-data", "%d of %d bytes read", int(w.got), int(w.peer->sent));
	u64 c0 = epoll_calls();
	int armed = int(choose(3));
	if (armed) {
		w.ts[0]->armed = true;
		w.ts[0]->t->once(1000.0);
		w.ts[0]->deadline = loop_now() + 1000 * SEC;
	}
	run_for(w.rl, 3600 * SEC);
	u64 n = epoll_calls() - c0;
	SIM_CHECK(n <= 8, "spins", "%d waits in an hour in which nothing happened", int(n));
	// idle handlers that come back are served again
	u64 r0 = 0;
	for (auto &x : w.is) {
		r0 += x->runs;
		w.set(*x, true);
	}
	run_for(w.rl, 2 * MS);
	for (auto &x : w.is)
		if (x->active)
			SIM_CHECK(x->last_spell == x->spell || w.idle_runs < 0, "not-served", "idle %d was activated and never ran", x->id);
	on_epoll_enter = nullptr;
	on_epoll_leave = nullptr;
	drop_events();
	w.sock.reset();
}

// ---------------------------------------------------------------- C04
namespace {
void thread_rounds() {
	int rounds = 1 + int(choose(3));
	for (int r = 0; r < rounds; r++) {
		int base = open_fd_count();
		std::unique_ptr<crab::Thread> th[2];
		int nth = 1 + int(choose(4) == 0);
		struct St {
			bool entered = false, run_done = false, fn_done = false, ran = false;
			i64 delay_until = 0;
		};
		std::vector<std::shared_ptr<St>> sts;
		for (int k = 0; k < nth; k++) {
			auto st = std::make_shared<St>();
			sts.push_back(st);
			int plan = int(choose(5));
			i64 pre = choose(2) ? 0 : range(0, 2000) * US, post = choose(4) ? 0 : range(0, 2000) * US;
			crab::RunLoop *mine = crab::RunLoop::current();
			th[k].reset(new crab::Thread([st, plan, pre, post, mine] {
				st->entered = true;
				crab::RunLoop *rl = crab::RunLoop::current();
				SIM_CHECK(rl != nullptr && rl != mine, "no-loop", "RunLoop::current() in the thread's function is %s", rl ? "the caller's loop" : "null");
				if (pre)
					std::this_thread::sleep_for(std::chrono::nanoseconds(pre));
				if (plan != 0) {
					crab::Timer t([] {});
					crab::Watcher wt([] {});
					if (plan == 1)
						t.once(100000.0);
					if (plan == 2)
						t.set_handler([&t] { t.once(0.001); }), t.once(0.0005);
					if (plan == 3)
						wt.call();
					if (plan == 4)
						t.set_handler([] { busy(500 * US); }), t.once(0.0);
					st->ran = true;
					rl->run();
					st->run_done = true;
				}
				if (post)
					std::this_thread::sleep_for(std::chrono::nanoseconds(post));
				st->fn_done = true;
			}));
		}
		int cancels = int(choose(4));
		for (int c = 0; c < cancels; c++) {
			switch (choose(3)) {
			case 0: break;
			case 1: yield(); break;
			case 2: std::this_thread::sleep_for(std::chrono::microseconds(range(0, 4000))); break;
			}
			th[choose(u32(nth))]->cancel();
			ev("thread_cancel");
		}
		if (choose(2))
			std::this_thread::sleep_for(std::chrono::microseconds(range(0, 6000)));
		for (int k = 0; k < nth; k++) {
			i64 t0 = now();
			ev("thread_destroy", k);
			th[k].reset();
			SIM_CHECK(sts[size_t(k)]->fn_done, "not-joined", "~Thread() returned before the thread's function ended");
			SIM_CHECK(now() - t0 <= 6 * MS, "slow-join", "~Thread() took %.6f s", (now() - t0) / 1e9);
		}
		SIM_CHECK(open_fd_count() == base, "fd-leak", "%d descriptors more than before the threads", open_fd_count() - base);
		nontrivial();
	}
}
void loop_rounds() {
	crab::RunLoop rl;
	int rounds = 1 + int(choose(5));
	for (int r = 0; r < rounds; r++) {
		bool running = false, asked = false;
		i64 at_time = 0, at_busy = 0;
		auto ask = [&] {
			asked = true;
			at_time = now();
			at_busy = busy_total;
			ev("cancel()");
			rl.cancel();
		};
		crab::Timer start([&] { running = true; });
		start.once(choose(2) ? 0.0 : double(range(0, 2000)) / 1e6);
		crab::Timer far([] {}), rep([] {});
		if (choose(2))
			far.once(5000.0);
		if (choose(3) == 0) {
			rep.set_handler([&] { rep.once(0.0004); });
			rep.once(0.0);
		}
		std::unique_ptr<crab::Idle> idle;
		std::unique_ptr<crab::Watcher> wat;
		int who = int(choose(4));
		if (choose(5) == 0)
			idle.reset(new crab::Idle([] { busy(100 * US); }));
		crab::Timer tc([&] { ask(); });
		switch (who) {
		case 0:
		case 1:
			spawn([&] {
				while (!running)
					std::this_thread::sleep_for(std::chrono::microseconds(100));
				switch (choose(3)) {
				case 0: break;
				case 1: yield(); break;
				case 2: std::this_thread::sleep_for(std::chrono::microseconds(range(0, 4000))); break;
				}
				ask();
			});
			break;
		case 2: tc.once(0.002 + double(range(0, 3000)) / 1e6); break;
		case 3:
			wat.reset(new crab::Watcher([&] { ask(); }));
			spawn([&] {
				while (!running)
					std::this_thread::sleep_for(std::chrono::microseconds(100));
				wat->call();
			});
			break;
		}
		bool ret = run_for(rl, 3600 * SEC);
		SIM_CHECK(ret, "not-stopped", "cancel() was called at %.6f and run() did not return by %.6f", at_time / 1e9, now() / 1e9);
		SIM_CHECK(asked, "stopped-by-itself", "run() returned although nobody called cancel()");
		i64 idle_wait = (now() - at_time) - (busy_total - at_busy);
		SIM_CHECK(idle_wait <= 10 * US, "late-stop", "run() returned %.6f s after cancel() was called", (now() - at_time) / 1e9);
		nontrivial();
		join_all();
	}
}
}  // namespace

SCENARIO(loop_cancel) {
	swarm({F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_EPOLL_PARTIAL, F_EPOLL_REORDER, F_CV_SPURIOUS});
	static const u32 pre[] = {0, 50, 300};
	cfg.preempt = pre[choose(3)];
	static const u32 fine[] = {0, 400, 60, 12};
	cfg.fine_preempt = fine[choose(4)];
	if (choose(2))
		loop_rounds();
	else {
		std::unique_ptr<crab::RunLoop> own(choose(2) ? new crab::RunLoop : nullptr);
		thread_rounds();
		own.reset();
		SIM_CHECK(open_fd_count() == 0, "fd-leak", "%d descriptors left", open_fd_count());
	}
}
