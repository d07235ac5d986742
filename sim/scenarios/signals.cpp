// C14: POSIX signals.
#include "common.hpp"
#include <signal.h>

namespace {
struct Sig {
	int id = 0;
	std::vector<int> asked, sigs;
	std::unique_ptr<crab::Signal> s;
	bool owed = false;
	i64 owed_since = 0;
	u64 raised = 0, runs = 0, allowed = 0;
	struct SigWorld *w = nullptr;
	void make();
	void kill();
	void handler(int version);
	int version = 0;
};
struct SigWorld {
	crab::RunLoop rl;
	std::vector<std::unique_ptr<Sig>> ss;
	i64 enter = 0, enter_busy = 0;
	bool quiet = false;
	void raise(Sig &x) {
		int sig = x.sigs[choose(u32(x.sigs.size()))];
		if (!x.s)
			return;
		x.raised++;
		x.allowed++;
		x.owed = true;
		x.owed_since = now();
		int before = fatal_signals;
		raise_signal(sig);
		SIM_CHECK(fatal_signals == before, "not-masked", "signal %d was delivered to a thread that does not block it although a Signal object for it exists", sig);
	}
};
const std::vector<int> all = {SIGINT, SIGTERM, SIGUSR1, SIGUSR2, SIGHUP, SIGQUIT, SIGCHLD, SIGALRM, SIGPIPE};
void check_masks(SigWorld &w) {
	for (int sig : all) {
		bool want = false;
		for (auto &x : w.ss)
			if (x->s && std::count(x->sigs.begin(), x->sigs.end(), sig))
				want = true;
		SIM_CHECK(signal_masked(sig) == want, "mask", "signal %d is %s, but a live Signal object %s it", sig, want ? "not blocked" : "blocked", want ? "wants" : "does not want");
	}
}
void Sig::make() {
	ev("signal_new", id);
	owed = false;
	allowed = 0;
	version++;
	int v = version;
	s.reset(new crab::Signal([this, v] { handler(v); }, asked));
	check_masks(*w);
}
void Sig::kill() {
	ev("signal_del", id);
	owed = false;
	allowed = 0;
	s.reset();
	fatal_signals = 0;  // one that was still pending takes its default action now
	check_masks(*w);
}
void Sig::handler(int v) {
	ev("h", id, v);
	SIM_CHECK(thread_id() == 0, "wrong-thread", "signal handler %d on thread %d", id, thread_id());
	SIM_CHECK(s != nullptr, "call-after-destroy", "handler of a destroyed Signal runs");
	SIM_CHECK(v == version, "old-handler", "signal object %d: replaced handler runs", id);
	SIM_CHECK(allowed > 0, "run-without-signal", "signal object %d: handler runs, but no signal arrived since the last run (%d runs, %d signals)", id, int(runs), int(raised));
	runs++;
	allowed--;
	owed = false;
	if (w->quiet)
		return;
	switch (choose(10)) {
	case 0: busy(range(0, 30) * MS); break;
	case 1: w->raise(*this); PROBE("raise_in_handler"); break;
	case 2: w->raise(*w->ss[choose(u32(w->ss.size()))]); break;
	case 3:
		PROBE("destroy_self");
		kill();
		if (choose(2))
			make();
		break;
	case 4: {
		Sig &o = *w->ss[choose(u32(w->ss.size()))];
		if (&o != this && o.s)
			o.kill();
		break;
	}
	default: break;
	}
}
}  // namespace

SCENARIO(signals) {
	swarm({F_EPOLL_EINTR, F_LATE_WAKE, F_EPOLL_PARTIAL, F_EPOLL_REORDER});
	static const u32 pre[] = {0, 50, 300};
	cfg.preempt = pre[choose(3)];
	static const i64 costs[] = {0, 1 * US, 30 * US};
	cfg.syscall_cost = costs[choose(3)];
	cfg.interleave = choose(2) ? 200 : 0;
	SigWorld w;
	static const std::vector<std::vector<int>> sets = {{}, {SIGUSR1}, {SIGUSR2, SIGHUP}, {SIGQUIT, SIGCHLD, SIGALRM}};
	int n = 1 + int(choose(3));
	int first = int(choose(4));
	for (int i = 0; i < n; i++) {
		w.ss.emplace_back(new Sig);
		Sig *x = w.ss.back().get();
		x->id = i;
		x->w = &w;
		x->asked = sets[size_t((first + i) % 4)];
		x->sigs = x->asked.empty() ? std::vector<int>{SIGINT, SIGTERM} : x->asked;
		x->make();
	}
	on_epoll_enter = [&](int, int) {
		if (thread_id())
			return;
		w.enter = now();
		w.enter_busy = busy_total;
	};
	on_epoll_leave = [&] {
		if (thread_id())
			return;
		i64 woke = now() - (busy_total - w.enter_busy);
		for (auto &x : w.ss)
			if (x->owed)
				SIM_CHECK(woke <= std::max(x->owed_since, w.enter), "slept-while-owed", "signal object %d: signal at %.6f, the loop slept until %.6f", x->id, x->owed_since / 1e9, woke / 1e9);
	};
	crab::Timer tick([] {});
	int ops = int(size_log(1, 30));
	tick.set_handler([&] {
		if (ops-- <= 0)
			return;
		Sig &x = *w.ss[choose(u32(w.ss.size()))];
		switch (choose(6)) {
		case 0:
			if (x.s)
				x.kill();
			else
				x.make();
			break;
		case 1:
			if (x.s) {
				Sig *p = &x;
				int v = ++x.version;
				PROBE("set_handler");
				x.s->set_handler([p, v] { p->handler(v); });
			}
			break;
		default:
			w.raise(x);
			if (choose(3) == 0)
				w.raise(x);
		}
		if (!x.s && choose(2))
			x.make();
		tick.once(double(range(0, 50)) / 1e3);
	});
	tick.once(0.001);
	int ev_n = int(choose(15));
	i64 t = 0;
	for (int i = 0; i < ev_n; i++) {
		t += choose(3) ? range(0, 100) * MS : 0;
		after(t, [&] { w.raise(*w.ss[choose(u32(w.ss.size()))]); });
	}
	int nt = int(choose(3)), done = 0;
	for (int k = 0; k < nt; k++) {
		int m = 1 + int(choose(6));
		spawn([&w, &done, m] {
			for (int i = 0; i < m; i++) {
				if (choose(2))
					busy(range(0, 20) * MS);
				yield();
				Sig &x = *w.ss[choose(u32(w.ss.size()))];
				if (x.s)
					w.raise(x);
			}
			done++;
		});
	}
	run_until(w.rl, 100 * SEC, [&] { return ops <= 0 && done == nt; });
	run_for(w.rl, 3 * SEC);
	w.quiet = true;
	// one more signal, after everything that happened
	for (auto &x : w.ss) {
		if (!x->s && nt == 0)
			x->make();
		w.raise(*x);
	}
	run_for(w.rl, 1 * SEC);
	for (auto &x : w.ss) {
		SIM_CHECK(!x->owed, "lost-signal", "signal object %d: a signal arrived at %.3f and the handler did not run by %.3f", x->id, x->owed_since / 1e9, now() / 1e9);
		if (x->runs)
			nontrivial();
		if (x->runs < x->raised)
			PROBE("merged");
	}
	join_all();
	drop_events();
	on_epoll_enter = nullptr;
	on_epoll_leave = nullptr;
	for (auto &x : w.ss)
		if (x->s)
			x->kill();
	check_masks(w);
}
