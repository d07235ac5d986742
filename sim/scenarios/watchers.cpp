// C03: Watcher::call from any thread.
#include "common.hpp"
#include <thread>

namespace {
struct W {
	int id;
	std::unique_ptr<crab::Watcher> w;
	u64 started = 0, runs = 0, cancels = 0;  // cancels: odd while one is in progress
	bool owed = false;
	i64 owed_since = 0;
	u64 allowed = 0;     // runs still permitted: calls made (or in flight) since the last cancel, minus runs
	int in_flight = 0;
};
struct World {
	crab::RunLoop rl;
	std::vector<std::unique_ptr<W>> ws;
	i64 enter = 0, enter_busy = 0;
	int handler_ops = 0;
	bool cross = false;

	void call(W &x) {
		x.started++;
		x.in_flight++;
		x.allowed++;
		u64 r = x.runs, c = x.cancels;
		ev("wcall", x.id);
		x.w->call();
		x.in_flight--;
		ev("wcall_ret", x.id);
		// no run began since the invocation and no cancel overlaps: a run is owed
		if (x.runs == r && x.cancels == c && c % 2 == 0 && !x.owed) {
			x.owed = true;
			x.owed_since = now();
		}
	}
	void cancel(W &x) {
		ev("wcancel", x.id);
		x.cancels++;
		// calls that overlap the cancel may come before or after it
		u64 s = x.started;
		u64 fl = u64(x.in_flight);
		x.owed = false;
		x.w->cancel();
		x.owed = false;
		x.allowed = fl + (x.started - s);
		x.cancels++;
	}
	void handler(W &x) {
		ev("wrun", x.id);
		SIM_CHECK(thread_id() == 0, "wrong-thread", "handler of watcher %d runs on thread %d, not on the loop's thread", x.id, thread_id());
		x.runs++;
		SIM_CHECK(x.runs <= x.started, "more-runs-than-calls", "watcher %d: %d runs for %d calls", x.id, int(x.runs), int(x.started));
		SIM_CHECK(x.allowed > 0, "run-without-call", "watcher %d runs although no call was made since the last cancel or run", x.id);
		x.allowed--;
		x.owed = false;
		if (handler_ops > 0 && choose(3) == 0) {
			handler_ops--;
			W &y = *ws[choose(u32(ws.size()))];
			switch (choose(4)) {
			case 0: call(x); PROBE("call_in_own_handler"); break;
			case 1: call(y); break;
			case 2: cancel(y); break;
			case 3: busy(range(0, 5) * MS); break;
			}
		}
	}
};
}  // namespace

SCENARIO(watchers) {
	swarm({F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_LATE_WAKE, F_EPOLL_PARTIAL, F_EPOLL_REORDER});
	static const u32 pre[] = {0, 50, 300};
	cfg.preempt = pre[choose(3)];
	static const u32 fine[] = {0, 400, 60, 12};
	cfg.fine_preempt = fine[choose(4)];
	World w;
	int nw = 1 + int(choose(4)), nt = int(weighted({1, 3, 3, 2}));
	w.handler_ops = int(choose(20));
	for (int i = 0; i < nw; i++) {
		w.ws.emplace_back(new W);
		W *x = w.ws.back().get();
		x->id = i;
		x->w.reset(new crab::Watcher([&w, x] { w.handler(*x); }));
	}
	std::unique_ptr<crab::Idle> idle;
	if (choose(6) == 0)
		idle.reset(new crab::Idle([&] { busy(100 * US); if (choose(20) == 0) idle->set_active(false); }));
	crab::Timer keep([] {});
	if (choose(2))
		keep.once(1000.0);
	on_epoll_enter = [&w](int, int timeout) {
		if (thread_id() != 0)
			return;
		w.enter = now();
		w.enter_busy = busy_total;
		(void)timeout;
	};
	on_epoll_leave = [&w] {
		i64 woke = now() - (busy_total - w.enter_busy);
		for (auto &x : w.ws)
			if (x->owed) {
				i64 since = std::max(x->owed_since, w.enter);
				SIM_CHECK(woke <= since, "slept-while-owed", "watcher %d was called at %.6f but the loop slept until %.6f", x->id, x->owed_since / 1e9, woke / 1e9);
			}
	};
	std::vector<int> budget(size_t(nt), 0);
	int done = 0;
	for (int t = 0; t < nt; t++) {
		int calls = int(size_log(1, 12));
		spawn([&w, &done, calls] {
			for (int i = 0; i < calls; i++) {
				switch (choose(4)) {
				case 0: yield(); break;
				case 1: std::this_thread::sleep_for(std::chrono::microseconds(range(0, 3000))); break;
				default: break;
				}
				w.call(*w.ws[choose(u32(w.ws.size()))]);
			}
			done++;
		});
	}
	// calls and cancels made on the loop thread between other events
	crab::Timer driver([] {});
	int drive = int(choose(8));
	std::function<void()> drv = [&] {
		if (drive-- <= 0)
			return;
		W &x = *w.ws[choose(u32(w.ws.size()))];
		if (choose(3))
			w.call(x);
		else
			w.cancel(x);
		driver.once(double(range(0, 4000)) / 1e6);
	};
	driver.set_handler([&] { drv(); });
	if (drive)
		driver.once(double(range(0, 2000)) / 1e6);
	run_until(w.rl, 3600 * SEC, [&] { return done == nt && drive <= 0; });
	run_for(w.rl, 1 * SEC);
	for (auto &x : w.ws) {
		SIM_CHECK(!x->owed, "lost-call", "watcher %d: call() returned at %.6f and no run started by %.6f", x->id, x->owed_since / 1e9, now() / 1e9);
		if (x->runs && nt > 0)
			nontrivial();
		if (x->runs < x->started)
			PROBE("calls_merged");
	}
	join_all();
	on_epoll_enter = nullptr;
	on_epoll_leave = nullptr;
}
