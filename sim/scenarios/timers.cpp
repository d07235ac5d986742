// C01: timers against a small model.
#include "common.hpp"

namespace {
struct World;
struct T {
	World *w;
	int id;
	std::unique_ptr<crab::Timer> t;
	// model
	bool armed = false, moved = false;
	i64 deadline = 0;     // ns; INT64_MAX for saturated
	i64 armed_at = 0;
	u64 armings = 0, fired = 0, expected = 0;  // expected: armings that were not replaced or cancelled
	u64 polls_due = 0;
	void make();
	void on_fire();
};
struct World {
	crab::RunLoop rl;
	std::vector<std::unique_ptr<T>> ts;
	std::unique_ptr<crab::Watcher> watcher;
	std::unique_ptr<crab::Idle> idle;
	int ops_left = 0;
	bool did_cancel = false, did_fire = false, did_move = false;
	i64 enter = 0, enter_busy = 0, leave_busy = 0;
	bool in_wait = false;

	void check_set(T &x) { SIM_CHECK(x.t->is_set() == x.armed, "is_set", "timer %d: is_set()=%d but a run is %sowed", x.id, int(x.t->is_set()), x.armed ? "" : "not "); }
	void check_all() {
		for (auto &x : ts)
			if (x->t)
				check_set(*x);
	}
	void arm(T &x) {
		if (!x.t)
			x.make();
		i64 base = loop_now();
		i64 d = 0;
		switch (choose(8)) {
		case 0: d = 0; break;
		case 1: d = range(1, 999) * US; break;
		case 2: d = range(1, 50) * MS; break;
		case 3: d = range(0, 3000000); break;
		case 4: d = range(0, 5000) * MS; break;
		case 5: d = range(-20, 20) * MS; break;
		case 6: d = range(1700, 8000) * SEC; break;  // beyond the maximum sleep
		case 7: d = -1; break;
		}
		i64 dl;
		switch (choose(3)) {
		case 0:
			if (d == -1) {
				static const double huge[] = {1e10, 1e300, 9.3e9, 4e9};
				double s = huge[choose(4)];
				dl = INT64_MAX;
				if (s * 1e9 + double(base) < 9.1e18)
					dl = base + i64(s * 1e9);
				x.t->once(s);
			} else {
				dl = base + std::max<i64>(d, 0);
				x.t->once(double(d) / 1e9);
			}
			break;
		case 1:
			if (d == -1) {
				dl = INT64_MAX;
				x.t->once(choose(2) ? DUR::max() : DUR::max() - dur(5));
			} else {
				dl = base + std::max<i64>(d, 0);
				x.t->once(dur(d));
			}
			break;
		default:
			if (d == -1) {
				dl = INT64_MAX;
				x.t->once_at(TP::max());
			} else {
				dl = base + d;
				x.t->once_at(tp(dl));
			}
		}
		armed(x, dl, base);
	}
	void arm_at(T &x, i64 dl) {
		x.t->once_at(tp(dl));
		armed(x, dl, loop_now());
	}
	void armed(T &x, i64 dl, i64 base) {
		x.moved = x.armed;
		if (x.armed)
			did_move = true, PROBE("rearm_while_set");
		x.armed = true;
		x.deadline = dl;
		x.armed_at = now();
		x.armings++;
		x.polls_due = 0;
		ev("arm", x.id, dl == INT64_MAX ? -1 : dl - base);
	}
	void disarm(T &x) {
		if (x.armed)
			did_cancel = true, PROBE("cancel_while_set");
		if (x.armed && x.deadline <= now())
			PROBE("cancel_when_due");
		x.armed = false;
	}
	void op() {
		T &x = *ts[choose(u32(ts.size()))];
		switch (weighted({6, 2, 1, 1, 1, 1})) {
		case 0: arm(x); break;
		case 1:
			if (x.t)
				x.t->cancel();
			ev("cancel", x.id);
			disarm(x);
			break;
		case 2:
			ev("destroy", x.id);
			x.t.reset();
			disarm(x);
			break;
		case 3:
			if (fault_rate[F_SLOW_HANDLER]) {
				count_fault(F_SLOW_HANDLER);
				busy(range(0, 40) * MS + range(0, 999) * US);
			}
			break;
		case 4: watcher->call(); break;
		case 5:
			if (idle)
				idle->set_active(!idle->is_active());
			break;
		}
	}
	void ops() {
		u32 n = weighted({4, 4, 2, 1});
		while (n-- && ops_left > 0) {
			ops_left--;
			op();
		}
		check_all();
	}
	void on_enter(int timeout) {
		in_wait = true;
		enter = now();
		enter_busy = busy_total;
		i64 ln = ns(rl.now());
		for (auto &x : ts)
			if (x->armed && x->deadline <= ln) {
				x->polls_due++;
				SIM_CHECK(timeout == 0 || x->armed_at > ln, "slept-while-due", "timer %d was due at %.6f but the loop goes to sleep at %.6f", x->id, x->deadline / 1e9, now() / 1e9);
				SIM_CHECK(x->polls_due < 8 + 2 * ts.size(), "starved", "timer %d is due but the loop polled %d times without running it", x->id, int(x->polls_due));
			}
	}
	void on_leave() {
		in_wait = false;
		i64 b = enter_busy - leave_busy;                 // work done since the clock was read
		i64 woke = now() - (busy_total - enter_busy);    // before any late wake-up
		for (auto &x : ts)
			if (x->armed && x->deadline != INT64_MAX) {
				i64 due = std::max(x->deadline, enter);
				SIM_CHECK(woke - due <= b + MS + US, "late", "timer %d due at %.6f: the loop slept until %.6f (%.3f ms of other work before)", x->id, x->deadline / 1e9, woke / 1e9, b / 1e6);
			}
		leave_busy = busy_total;
	}
};
void T::make() {
	t.reset(new crab::Timer([this] { on_fire(); }));
}
void T::on_fire() {
	ev("fire", id, now() - deadline);
	SIM_CHECK(armed, "spurious-run", "timer %d ran although no run is owed", id);
	SIM_CHECK(ns(crab::steady_clock::now()) >= deadline, "early", "timer %d ran %.9f s before its deadline", id, (deadline - now()) / 1e9);
	for (auto &y : w->ts)
		if (y.get() != this && y->armed && !y->moved && !moved)
			SIM_CHECK(y->deadline >= deadline, "order", "timer %d (deadline %.9f) ran before timer %d (deadline %.9f)", id, deadline / 1e9, y->id, y->deadline / 1e9);
	armed = false;
	fired++;
	w->did_fire = true;
	SIM_CHECK(!t->is_set(), "is_set-in-handler", "timer %d: is_set() inside its own handler", id);
	if (choose(4) == 0 && w->ops_left > 0) {  // self
		w->ops_left--;
		switch (choose(3)) {
		case 0: w->arm(*this); break;
		case 1: t->cancel(); break;
		case 2: {
			PROBE("destroy_self");
			World *ww = w;
			t.reset();  // the handler's captures are gone: use locals only
			ww->ops();
			return;
		}
		}
	}
	w->ops();
}
}  // namespace

SCENARIO(timers) {
	swarm({F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_LATE_WAKE, F_CLOCK_JUMP, F_SLOW_HANDLER, F_EPOLL_PARTIAL});
	static const i64 costs[] = {0, 3 * US, 200 * US};
	cfg.syscall_cost = costs[choose(3)];
	World w;
	int n = 1 + int(choose(7));
	bool crowd = choose(4) == 0;  // many timers set at the same time
	if (crowd)
		n = 8 + int(size_log(1, 60));
	w.ops_left = int(size_log(4, 120));
	for (int i = 0; i < n; i++) {
		w.ts.emplace_back(new T);
		w.ts.back()->w = &w;
		w.ts.back()->id = i;
		w.ts.back()->make();
	}
	w.watcher.reset(new crab::Watcher([&w] { w.ops(); }));
	if (choose(4) == 0)
		w.idle.reset(new crab::Idle([&w] {
			busy(200 * US);
			if (choose(8) == 0)
				w.idle->set_active(false);
			else if (choose(8) == 0)
				w.ops();
		}));
	// wall clock jumps must be irrelevant
	if (fault_rate[F_CLOCK_JUMP])
		for (int i = 0; i < 3; i++)
			after(range(0, 200) * MS, [] { wall_jump(range(-100000, 100000) * SEC); });
	int k = 1 + int(choose(3));
	while (k--)
		w.arm(*w.ts[choose(u32(n))]);
	if (crowd) {
		i64 span = choose(2) ? 5 * SEC : 20 * MS;
		for (auto &x : w.ts)
			w.arm_at(*x, loop_now() + range(1, span));
		for (int i = int(choose(u32(n))); i > 0; i--) {
			T &x = *w.ts[choose(u32(n))];
			switch (choose(4)) {
			case 0: w.arm_at(x, loop_now() + range(1, span)); break;
			default:
				x.t->cancel();
				ev("cancel", x.id);
				w.disarm(x);
			}
		}
		w.check_all();
	}
	w.leave_busy = busy_total;
	on_epoll_enter = [&w](int, int timeout) { w.on_enter(timeout); };
	on_epoll_leave = [&w] { w.on_leave(); };
	// run until the program has no more operations and every finite deadline has passed
	for (int round = 0; round < 40; round++) {
		i64 last = now();
		for (auto &x : w.ts)
			if (x->armed && x->deadline != INT64_MAX && x->deadline < now() + 20000 * SEC)
				last = std::max(last, x->deadline);
		if (w.idle && w.idle->is_active() && last > now() + 5 * SEC)
			w.idle->set_active(false);
		w.leave_busy = busy_total;
		stop_at(last + 100 * MS);
		run_loop(w.rl);
		stop_at(INT64_MAX);
		if (w.in_wait)  // stopped in its sleep: it must have had nothing to do
			w.on_leave();
		bool more = false;
		for (auto &x : w.ts)
			if (x->armed && x->deadline < now() + 20000 * SEC)
				more = true;
		if (!more)
			break;
	}
	// everything that was due has run
	for (auto &x : w.ts)
		if (x->armed && x->deadline < now() - 100 * SEC)
			fail("lost", "timer %d with deadline %.6f has not run by %.6f", x->id, x->deadline / 1e9, now() / 1e9);
	w.check_all();
	on_epoll_enter = nullptr;
	on_epoll_leave = nullptr;
	if (w.did_fire && (w.did_cancel || w.did_move))
		nontrivial();
	for (auto &x : w.ts)
		x->t.reset();
	w.idle.reset();
	w.watcher.reset();
}
