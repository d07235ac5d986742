// C25: the documented cross-thread calls, under ThreadSanitizer's happens-before detector. This file is not instrumented;
// what it shares between threads is either guarded by a mutex, as a user's would be, or hidden from the detector on purpose.
#include "http.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>

namespace {
namespace ch = crab::http;
enum { MAXL = 4, MAXW = 3 };
struct Loop;
struct World {
	int nl = 1;
	Loop *loops[MAXL] = {};
	std::mutex m;  // guards what follows, the way a user would
	int ready = 0, closed = 0, callers_done = 0;
	bool http = false, dns = false, rude = false;
	int runs = 0;
};
struct Loop {
	World *w = nullptr;
	int id = 0, sim_thread = -1;
	crab::RunLoop *rl = nullptr;
	crab::Watcher *watchers[MAXW] = {};
	crab::Watcher *bye = nullptr;
	crab::Timer *timer = nullptr;
	crab::DNSResolver *dns[2] = {};
	crab::Idle *idle = nullptr;
	ch::Server *server = nullptr;
	ch::ClientRequestSimple *rq = nullptr;
	ch::ClientConnection *ws = nullptr;
	crab::UDPTransmitter *udp = nullptr;
	int left = 0, nwatch = 1;
	bool closing = false, asked = false;

	void on_thread(const char *what) {
		SIM_CHECK(thread_id() == sim_thread, "wrong-thread", "a %s handler of loop %d runs on thread %d, not on %d", what, id, thread_id(), sim_thread);
	}
	void foreign();
	void op();
	void make();
	void drop();
	void go();
};
void act(World *w) {  // a cross-thread call from anywhere
	Loop *l = w->loops[choose(u32(w->nl))];
	if (w->rude && choose(12) == 0) {
		PROBE("loop_cancel");
		l->rl->cancel();
	} else
		l->watchers[choose(u32(l->nwatch))]->call();
}
void Loop::op() {
	if (closing || left <= 0)
		return;
	left--;
	switch (choose(10)) {
	case 0:
	case 1:
	case 2: act(w); break;
	case 3: watchers[choose(u32(nwatch))]->cancel(); break;
	case 4:
	case 5:
		if (dns[0]) {
			auto *d = dns[choose(2)];
			if (choose(3))
				d->resolve(choose(3) ? "good" : "bad", 80, true, choose(2));
			else
				d->cancel();
		}
		break;
	case 6:
		if (rq && !asked) {
			asked = true;
			rq->get("http://" + std::string(choose(2) ? "good" : "127.0.0.1") + ":" + std::to_string(100 + choose(u32(w->nl))) + "/");
		} else if (rq && choose(3) == 0) {
			asked = false;
			rq->cancel();
		}
		break;
	case 7:
		if (ws && !ws->is_open()) {
			ws->connect(addr(100 + int(choose(u32(w->nl)))));
			ch::Request q("good", "GET", "/ws");
			ws->web_socket_upgrade(q.header);
		} else if (ws && ws->get_state() == ch::ClientConnection::WEB_MESSAGE_HEADER)
			ws->write(ch::WebMessage("hello"));
		break;
	case 8: {
		crab::Watcher tmp([] { sim::fail("after-destroy", "the handler of a destroyed watcher runs"); });
		if (choose(2))
			tmp.call();
		break;
	}
	case 9: busy(range(0, 3) * MS); break;
	}
}
void Loop::make() {
	sim_thread = thread_id();
	rl = crab::RunLoop::current();
	for (int i = 0; i < nwatch; i++)
		watchers[i] = new crab::Watcher([this] {
			on_thread("watcher");
			w->runs++;
			if (choose(2))
				op();
		});
	bye = new crab::Watcher([this] {
		on_thread("watcher");
		closing = true;
		if (rq)
			rq->cancel();
		if (ws)
			ws->close();
		if (timer)
			timer->cancel();
		for (auto d : dns)
			if (d)
				d->cancel();
		std::unique_lock<std::mutex> lock(w->m);
		w->closed++;
	});
	timer = new crab::Timer([this] {
		on_thread("timer");
		op();
		timer->once(double(range(1, 3000)) / 1e6);
	});
	timer->once(0.0);
	if (w->dns)
		for (auto &d : dns)
			d = new crab::DNSResolver([this](const std::vector<crab::Address> &) {
				on_thread("resolver");
				op();
			});
	if (choose(4) == 0)
		idle = new crab::Idle([this] {
			busy(500 * US);
			if (choose(5) == 0)
				idle->set_active(false);
		});
	if (w->http) {
		server = new ch::Server(addr(100 + id));
		server->r_handler = [this](ch::Client *c, ch::Request &&q) {
			on_thread("server");
			if (q.header.path == "/ws") {
				c->web_socket_upgrade([c](ch::WebMessage &&m) {
					if (m.is_close())
						return;
					c->write(std::move(m));
				});
				return;
			}
			ch::Response r;
			r.header.status = 200;
			r.set_body("answer");
			c->write(std::move(r));
		};
		rq = new ch::ClientRequestSimple([this](ch::Response &&) { on_thread("request"); asked = false; op(); },
		    [this](std::string &&) { on_thread("request"); asked = false; });
		ws = new ch::ClientConnection([this] {
			on_thread("connection");
			ch::WebMessage m;
			while (ws->is_open() && ws->read_next(m)) {
			}
			if (choose(3) == 0)
				ws->close();
		});
	}
	std::unique_lock<std::mutex> lock(w->m);
	w->ready++;
}
void Loop::drop() {
	for (auto &x : watchers)
		delete x;
	delete bye;
	delete timer;
	for (auto d : dns)
		delete d;
	delete idle;
	delete rq;
	delete ws;
	delete server;
}
bool all(World *w, int World::*n) {
	std::unique_lock<std::mutex> lock(w->m);
	return w->*n == w->nl;
}
void Loop::go() {  // body of a crab::Thread
	make();
	while (!all(w, &World::ready))
		std::this_thread::sleep_for(std::chrono::microseconds(100));
	do
		rl->run();  // till the Thread is cancelled; a rude caller may cancel the loop earlier
	while (!all(w, &World::closed));
	drop();
}
}  // namespace

SCENARIO(races) {
	swarm({F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_LATE_WAKE, F_EPOLL_PARTIAL, F_CV_SPURIOUS});
	static const u32 pre[] = {50, 150, 400};
	cfg.preempt = pre[choose(3)];
	hx::sane_net();
	dns_model = [](const std::string &h, int, int) {
		DnsAnswer a;
		a.ok = h == "good";
		a.addrs.emplace_back("127.0.0.1", 4);
		a.delay = i64(choose(4)) * MS;
		return a;
	};
	World w;
	World *pw = &w;
	w.nl = 1 + int(choose(MAXL));
	w.dns = choose(3) != 0;
	w.http = choose(3) == 0;
	w.rude = choose(2);
	crab::RunLoop rl;
	crab::Thread *threads[MAXL] = {};
	for (int i = 0; i < w.nl; i++) {
		Loop *l = w.loops[i] = new Loop;
		l->w = pw;
		l->id = i;
		l->left = int(size_log(1, 60));
		l->nwatch = 1 + int(choose(MAXW));
	}
	// loop 0 is the main thread's
	w.loops[0]->make();
	w.loops[0]->timer->cancel();  // nobody calls before all are there
	w.loops[0]->closing = true;
	for (int i = 1; i < w.nl; i++) {
		Loop *l = w.loops[i];
		threads[i] = new crab::Thread([l] { l->go(); });
	}
	// the detector does not see the peeks that end these runs; the lock is what orders
	auto run_main = [&](i64 limit, std::function<bool()> pred) {
		i64 end = now() + limit;
		while (now() < end && !pred())
			run_until(rl, end - now(), pred);
	};
	run_main(100 * SEC, [pw] { return pw->ready == pw->nl; });
	SIM_CHECK(all(pw, &World::ready), "stuck", "%d of %d loops came up", w.ready, w.nl);
	w.loops[0]->closing = false;
	w.loops[0]->timer->once(0.0);
	int nt = int(choose(4)), done = 0;
	for (int t = 0; t < nt; t++) {
		int calls = int(size_log(1, 20));
		spawn([pw, calls, &done] {
			for (int i = 0; i < calls; i++) {
				switch (choose(4)) {
				case 0: yield(); break;
				case 1: std::this_thread::sleep_for(std::chrono::microseconds(range(0, 3000))); break;
				default: break;
				}
				act(pw);
			}
			done++;
		});
	}
	int cancels = w.nl > 1 && w.rude ? int(choose(4)) : 0;
	while (cancels-- > 0) {
		run_main(range(0, 5) * MS, [] { return false; });
		PROBE("thread_cancel");
		threads[1 + choose(u32(w.nl - 1))]->cancel();
	}
	run_main(1000 * SEC, [&, pw] {
		int left = 0;
		for (int i = 0; i < pw->nl; i++)
			left += std::max(0, pw->loops[i]->left);
		return done == nt && !left;
	});
	SIM_CHECK(done == nt, "stuck", "%d of %d callers are done", done, nt);
	stop_faults();
	join_all();
	for (int i = 0; i < w.nl; i++)
		w.loops[i]->bye->call();
	run_main(100 * SEC, [pw] { return pw->closed == pw->nl; });
	SIM_CHECK(all(pw, &World::closed), "stuck", "%d of %d loops closed", w.closed, w.nl);
	if (choose(2))
		for (int i = 1; i < w.nl; i++)
			threads[i]->cancel();
	for (int i = 1; i < w.nl; i++)
		delete threads[i];
	w.loops[0]->drop();
	exit_process();
	SIM_CHECK(live_threads() == 1, "exit", "%d threads are left after static destruction", live_threads() - 1);
	if (w.runs && w.nl + nt > 1)
		nontrivial();
}
