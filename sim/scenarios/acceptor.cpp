// C09: the acceptor against the simulated listen queue.
#include "common.hpp"

namespace {
struct World;
struct Cl {
	World *w;
	int id;
	RawPtr r;
	int order = -1;
	int accepted = 0;
	bool gone = false;  // closed or reset by its own side
};
struct Srv {
	World *w;
	std::unique_ptr<crab::TCPSocket> s;
	Cl *c = nullptr;
	std::string got;
	void handler();
};
struct World {
	crab::RunLoop rl;
	std::unique_ptr<crab::TCPAcceptor> acc;
	std::unique_ptr<crab::Timer> later;
	std::vector<std::unique_ptr<Cl>> cs;
	std::vector<std::unique_ptr<Srv>> ss;
	int order = 0, last_order = -1, total = 0, style = 0;
	bool lazy = true, final = false;
	u64 accepts = 0;

	Cl *find(int port) {
		for (auto &c : cs)
			if (c->r && port && c->r->local_port == port)
				return c.get();
		return nullptr;
	}
	void take() {
		crab::Address a;
		Srv *s;
		bool reuse = !ss.empty() && choose(6) == 0;
		if (reuse) {
			s = ss[choose(u32(ss.size()))].get();
			s->c = nullptr;
			s->got.clear();
			PROBE("accept_into_used_socket");
		} else {
			ss.emplace_back(new Srv);
			s = ss.back().get();
			s->w = this;
			s->s.reset(new crab::TCPSocket([s] { s->handler(); }));
		}
		bool with_addr = choose(5) != 0;
		s->s->accept(*acc, with_addr ? &a : nullptr);
		total++;
		SIM_CHECK(s->s->is_open(), "accept-closed", "the accepted socket is not open");
		crab::Address ra = s->s->remote_address();
		if (!with_addr)
			a = ra;
		Cl *c = find(a.get_port());
		if (!with_addr && !c)
			return;  // the peer reset meanwhile, nothing to identify it by
		SIM_CHECK(c, "wrong-address", "accepted a connection from %s:%d, which no client has", a.get_address().c_str(), int(a.get_port()));
		if (with_addr && ra.get_port() != 0)
			SIM_CHECK(ra.get_port() == a.get_port() && ra.get_address() == a.get_address(), "wrong-address", "accept() says %s:%d, the socket is connected to %s:%d", a.get_address().c_str(), int(a.get_port()), ra.get_address().c_str(), int(ra.get_port()));
		c->accepted++;
		ev("user_accept", c->id);
		SIM_CHECK(c->accepted == 1, "accepted-twice", "client %d accepted %d times", c->id, c->accepted);
		SIM_CHECK(c->order > last_order, "order", "client %d (arrival %d) accepted after arrival %d", c->id, c->order, last_order);
		last_order = c->order;
		s->c = c;
		if (choose(6) == 0) {
			s->s->close();
			s->c = nullptr;
		}
	}
	void handler() {
		ev("acc_handler");
		int quota = style == 1 ? int(1 + choose(3)) : 1 << 30;
		if (style == 2 && lazy && choose(2)) {
			later->once(double(range(0, 60)) / 1e3);
			return;
		}
		while (quota-- > 0) {
			bool can = acc->can_accept();
			if (can && choose(4) == 0)
				SIM_CHECK(acc->can_accept(), "can_accept", "can_accept() forgot the pending connection");
			if (!can)
				return;
			if (style == 2 && lazy && choose(3) == 0) {  // keep it for later
				PROBE("held_connection");
				later->once(double(range(0, 60)) / 1e3);
				return;
			}
			take();
		}
		later->once(double(range(0, 60)) / 1e3);
	}
	size_t waiting() {
		size_t n = 0;
		for (auto &c : cs)
			if (c->order >= 0 && !c->accepted && !c->r->got_rst && !c->gone)
				n++;
		return n;
	}
};
void Srv::handler() {
	if (!s->is_open()) {
		c = nullptr;
		return;
	}
	u8 b[64];
	while (size_t n = s->read_some(b, sizeof b))
		got.append((char *)b, n);
	if (c && got.size() >= 6) {
		char want[8];
		snprintf(want, sizeof want, "%06d", c->id);
		SIM_CHECK(got.compare(0, 6, want) == 0, "wrong-connection", "socket accepted with the address of client %s carries the data of client %.6s", want, got.c_str());
	}
}
}  // namespace

SCENARIO(acceptor) {
	swarm({F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_LATE_WAKE, F_EPOLL_PARTIAL, F_EPOLL_REORDER, F_ACCEPT_LIMIT, F_ACCEPT_ABORT, F_ACCEPT_EINTR, F_ACCEPT_ODD});
	random_net_config();
	World w;
	w.style = int(choose(3));
	crab::TCPAcceptor::Settings st;
	st.reuse_addr = choose(2);
	if (choose(4) == 0)
		st.rcvbuf_size = size_log(100, 100000);
	w.acc.reset(new crab::TCPAcceptor(addr(5000), [&w] { w.handler(); }, st));
	w.later.reset(new crab::Timer([&w] { w.handler(); }));
	if (choose(3) == 0) {
		bool threw = false;
		crab::TCPSocket s([] {});
		try {
			s.accept(*w.acc);
		} catch (const std::logic_error &) {
			threw = true;
		}
		SIM_CHECK(threw, "accept-nothing", "accept() with nothing pending did not throw");
	}
	int bursts = 1 + int(choose(4)), id = 0;
	i64 t = 0;
	for (int b = 0; b < bursts; b++) {
		int n = int(size_log(1, 25));
		i64 spread = choose(2) ? 0 : range(0, 50) * MS;
		for (int i = 0; i < n; i++) {
			w.cs.emplace_back(new Cl);
			Cl *c = w.cs.back().get();
			c->w = &w;
			c->id = id++;
			World *wp = &w;
			after(t + (spread ? range(0, spread) : 0), [c, wp] {
				c->r = raw_connect(5000);
				c->r->on_event = [c, wp] {
					if (!c->r || !c->r->connected || c->order >= 0)
						return;
					c->order = wp->order++;
					char tag[8];
					snprintf(tag, sizeof tag, "%06d", c->id);
					c->r->send(tag);
					u32 k = choose(8);
					if (k == 0)
						c->r->fin();
					else if (k == 1)
						after(range(0, 100) * MS, [c] {
							c->gone = true;
							count_fault(F_PEER_RESET);
							c->r->reset();
						});
				};
			});
		}
		t += range(0, 3000) * MS;
	}
	// periods in which no descriptor is available
	for (int i = int(choose(3)); i > 0; i--) {
		i64 s = range(0, t + SEC), e = s + range(1, 4000) * MS;
		after(s, [&w] { if (!w.final) cfg.fd_limit = u32(open_fd_count()) + choose(3); });
		after(e, [&w] { if (!w.final) cfg.fd_limit = 1u << 30; });
	}
	i64 end = now() + t + 1 * SEC;
	// errors that concern one connection must not delay the others
	i64 stuck = 0;
	size_t stuck_n = 0;
	u64 stuck_acc = 0;
	bool limited = false;
	on_epoll_enter = [&](int, int) {
		limited = limited || fault_count(F_ACCEPT_LIMIT) || fault_count(F_ACCEPT_ODD) || cfg.fd_limit < (1u << 30);
		size_t n = listen_backlog(5000);
		u64 acc = accepted_total(5000);
		if (!n || !stuck_n || n < stuck_n || acc != stuck_acc)
			stuck = now();
		stuck_n = n;
		stuck_acc = acc;
		if (w.style != 2 && !limited)
			SIM_CHECK(now() - stuck <= 700 * MS, "transient-stop", "%d connections are waiting for %.3f s though accept() met no lasting error", int(n), (now() - stuck) / 1e9);
	};
	run_for(w.rl, end - now());
	on_epoll_enter = nullptr;
	w.final = true;
	if (choose(3) == 0) {
		// a lasting condition with nobody arriving: about one attempt per second
		stop_faults();
		w.lazy = false;
		cfg.fd_limit = u32(open_fd_count());
		// make sure that something waits
		std::vector<RawPtr> more;
		for (int i = 0; i < 3; i++) {
			w.cs.emplace_back(new Cl);
			Cl *c = w.cs.back().get();
			c->w = &w;
			c->id = id++;
			World *wp = &w;
			c->r = raw_connect(5000);
			c->r->on_event = [c, wp] {
				if (!c->r->connected || c->order >= 0)
					return;
				c->order = wp->order++;
				char tag[8];
				snprintf(tag, sizeof tag, "%06d", c->id);
				c->r->send(tag);
			};
		}
		run_for(w.rl, 3 * SEC);
		if (w.waiting()) {
			PROBE("limit_window");
			u64 c0 = calls_of("accept");
			run_for(w.rl, 10 * SEC);
			u64 n = calls_of("accept") - c0;
			SIM_CHECK(n <= 12, "retry-spin", "%d accept() calls in 10 seconds while no descriptor is available", int(n));
			SIM_CHECK(n >= 8, "retry-rare", "only %d accept() calls in 10 seconds while connections wait", int(n));
		}
	}
	cfg.fd_limit = 1u << 30;
	stop_faults();
	run_for(w.rl, 1 * SEC + 200 * MS + 4 * cfg.net_lat_max);
	size_t left = w.waiting();
	if (left) {
		// own timers of the user can add a little each; nothing else arrives from now on
		run_for(w.rl, 100 * MS * i64(w.cs.size()));
		if (w.style == 0 || w.waiting())
			fail("not-accepted", "%d connections were not accepted although the trouble ended over a second ago (%d later)", int(left), int(w.waiting()));
	}
	for (auto &c : w.cs)
		SIM_CHECK(c->order < 0 || c->accepted == 1 || c->r->got_rst || c->gone, "lost", "client %d was accepted %d times", c->id, c->accepted);
	if (w.total >= 2)
		nontrivial();
	drop_events();
	w.acc.reset();
	w.ss.clear();
}
