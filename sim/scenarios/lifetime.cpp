// C02: no handler after cancel, close or destruction; any handler may cancel, close, re-arm or destroy any object.
#include "common.hpp"

namespace {
namespace ch = crab::http;
struct World;
struct Slot {
	World *w = nullptr;
	int id = 0;
	u32 gen = 0;
	bool alive = false;
	virtual ~Slot() {}
	virtual const char *kind() const = 0;
	virtual void create() = 0;
	virtual void destroy() = 0;
	virtual void op() = 0;
	virtual void check_final() = 0;
	std::string name() const { return std::string(kind()) + " " + std::to_string(id); }
	void enter(u32 g);
	void renew();
};
struct Session {
	RawPtr r;
	bool fin = false, broken = false;
	std::string content;
	~Session() {
		if (r)
			r->on_event = nullptr;
	}
};
struct World {
	crab::RunLoop rl;
	std::vector<std::unique_ptr<Slot>> slots;
	std::map<int, std::shared_ptr<Session>> sessions;  // by port
	std::vector<RawPtr> knockers, web;
	int left = 0, depth = 0, next_port = 1000, udp_sent = 0;
	u64 handlers = 0, foreign = 0, self_destroyed = 0;
	Slot *running = nullptr;
	std::unique_ptr<crab::Timer> driver;
	bool heavy = false;

	void ops(u32 n) {
		for (; n && left > 0; n--) {
			left--;
			Slot &s = *slots[choose(u32(slots.size()))];
			if (s.alive && choose(heavy ? 3 : 8) == 0) {
				ev("destroy", s.id);
				if (&s == running) {
					PROBE("destroyed_itself");
					self_destroyed++;
				}
				s.destroy();
				s.alive = false;
				s.gen++;
				if (choose(3))
					s.renew();
			} else if (!s.alive)
				s.renew();
			else
				s.op();
		}
	}
	// one handler run: the model is already updated
	void acted(Slot *s) {
		handlers++;
		if (choose(4) == 0)
			busy(range(0, 30) * MS);  // others become ready meanwhile
		Slot *was = running;
		running = s;
		ops(weighted({5, 4, 2, 1}));
		running = was;
	}
	void drive() {
		ops(1 + choose(3));
		if (left > 0)
			driver->once(dur(i64(choose(3)) * 10 * MS));
	}
	std::shared_ptr<Session> listen(int port) {
		auto s = std::make_shared<Session>();
		sessions[port] = s;
		raw_listen(port, [s](RawPtr r) {
			s->r = r;
			std::weak_ptr<Session> weak = s;
			u32 n = choose(6);
			i64 t = 0;
			for (u32 i = 0; i < n; i++) {
				t += i64(choose(4)) * 10 * MS;
				after(t, [weak] {
					auto s = weak.lock();
					if (s && !s->fin && s->r->open()) {
						std::string d = pat(7, s->content.size(), size_log(1, 300));
						s->content += d;
						s->r->send(d);
					}
				});
			}
			u32 e = choose(5);
			if (e < 3)
				after(t + i64(choose(4)) * 10 * MS, [weak, e] {
					auto s = weak.lock();
					if (!s || !s->r->open())
						return;
					s->fin = true;
					if (e == 2) {
						s->broken = true;
						count_fault(F_PEER_RESET);
						s->r->reset();
					} else {
						count_fault(F_PEER_FIN);
						s->r->fin();
					}
				});
		});
		return s;
	}
};
void Slot::enter(u32 g) {
	SIM_CHECK(alive && g == gen, "after-destroy", "the handler of %s runs after the object was destroyed", name().c_str());
	ev("handler", id);
}
void Slot::renew() {
	ev("create", id);
	gen++;
	alive = true;
	create();
}
struct TimerSlot : Slot {
	std::unique_ptr<crab::Timer> t;
	bool armed = false;
	const char *kind() const override { return "timer"; }
	void create() override {
		armed = false;
		u32 g = gen;
		t.reset(new crab::Timer([this, g] { run(g); }));
	}
	void destroy() override { t.reset(); }
	void run(u32 g) {
		enter(g);
		SIM_CHECK(armed, "after-cancel", "the handler of %s runs although it is not armed", name().c_str());
		armed = false;
		w->acted(this);
	}
	void op() override {
		if (choose(3)) {
			armed = true;
			t->once(dur(i64(1 + choose(4)) * 10 * MS));
		} else {
			armed = false;
			t->cancel();
		}
	}
	void check_final() override { SIM_CHECK(!alive || !armed, "lost", "%s was armed and did not run", name().c_str()); }
};
struct WatcherSlot : Slot {
	std::unique_ptr<crab::Watcher> t;
	u32 calls = 0;    // since create and the last cancel: an upper bound of the runs to come
	bool called = false;  // a call is not yet answered by a handler start
	const char *kind() const override { return "watcher"; }
	void create() override {
		called = false;
		calls = 0;
		u32 g = gen;
		t.reset(new crab::Watcher([this, g] { run(g); }));
	}
	void destroy() override { t.reset(); }
	void run(u32 g) {
		enter(g);
		// a call made when the handler is already due may give one more run
		SIM_CHECK(calls, "after-cancel", "the handler of %s runs although it was not called", name().c_str());
		calls--;
		called = false;
		w->acted(this);
	}
	void op() override {
		if (choose(4)) {
			called = true;
			calls++;
			t->call();
		} else {
			called = false;
			calls = 0;
			t->cancel();
		}
	}
	void check_final() override { SIM_CHECK(!alive || !called, "lost", "%s was called and did not run", name().c_str()); }
};
struct IdleSlot : Slot {
	std::unique_ptr<crab::Idle> t;
	bool active = false;
	const char *kind() const override { return "idle"; }
	void create() override {
		active = true;
		u32 g = gen;
		t.reset(new crab::Idle([this, g] { run(g); }));
	}
	void destroy() override { t.reset(); }
	void run(u32 g) {
		enter(g);
		SIM_CHECK(active, "after-cancel", "the handler of %s runs although it is not active", name().c_str());
		if (choose(3) == 0 || w->left <= 0) {
			active = false;
			t->set_active(false);
		}
		w->acted(this);
	}
	void op() override {
		active = choose(2);
		t->set_active(active);
	}
	void check_final() override {}
};
// TCPSocket and BufferedTCPSocket
template<class S>
struct SockSlot : Slot {
	std::unique_ptr<S> s;
	enum St { SHUT, LIVE, CLOSING } st = SHUT;
	std::shared_ptr<Session> sess;
	std::string got;
	const char *kind() const override { return std::is_same<S, crab::TCPSocket>::value ? "socket" : "buffered socket"; }
	void create() override {
		st = SHUT;
		sess.reset();
		u32 g = gen;
		s.reset(new S([this, g] { run(g); }));
	}
	void destroy() override {
		sess.reset();
		s.reset();
	}
	void run(u32 g) {
		enter(g);
		SIM_CHECK(st != SHUT, "after-close", "the handler of %s runs although it is closed", name().c_str());
		if (st == CLOSING) {
			SIM_CHECK(!s->is_open(), "close-event", "%s: the handler runs with the socket open after close(true)", name().c_str());
			PROBE("close_event");
			st = SHUT;
			sess.reset();
		} else if (!s->is_open()) {
			if (sess && sess->fin && !sess->broken && !shut)
				SIM_CHECK(got == sess->content, "lost", "%s: %zu of %zu bytes before the end of stream", name().c_str(), got.size(), sess->content.size());
			st = SHUT;
			sess.reset();
		} else {
			u8 b[1000];
			for (;;) {
				size_t n = s->read_some(b, sizeof b);
				if (!n)
					break;
				got.append(reinterpret_cast<char *>(b), n);
			}
		}
		w->acted(this);
	}
	bool shut = false;
	void write(crab::TCPSocket &q) {
		std::string d(choose(200), 'x');
		if (!d.empty() && q.can_write())
			q.write_some(d.data(), d.size());
	}
	void write(crab::BufferedTCPSocket &q) {
		q.write(std::string(choose(200), 'x'));
		if (choose(4) == 0) {
			shut = true;
			q.write_shutdown();
		}
	}
	void op() override {
		switch (weighted({4, 2, 3, 2})) {
		case 0: {
			int port = w->next_port++;
			auto ns = w->listen(port);
			sess = ns;
			got.clear();
			shut = false;
			st = LIVE;
			if (!s->connect(addr(port))) {
				st = SHUT;
				sess.reset();
			}
			break;
		}
		case 1:
			st = SHUT;
			sess.reset();
			s->close();
			SIM_CHECK(!s->is_open(), "is_open", "%s is open after close()", name().c_str());
			break;
		case 2:
			if (st != SHUT)
				st = CLOSING;
			s->close(true);
			break;
		case 3:
			if (st == LIVE)
				write(*s);
			break;
		}
	}
	void check_final() override {
		if (!alive)
			return;
		SIM_CHECK(st != CLOSING, "lost", "%s: close(true) and no handler call", name().c_str());
		if (st != LIVE || !sess || shut)
			return;
		SIM_CHECK(sess->r, "lost", "%s did not connect", name().c_str());
		SIM_CHECK(!sess->fin, "lost", "%s: the peer ended the session and the handler was not told", name().c_str());
		SIM_CHECK(got == sess->content, "lost", "%s: %zu of %zu bytes were read", name().c_str(), got.size(), sess->content.size());
	}
};
struct AcceptorSlot : Slot {
	std::unique_ptr<crab::TCPAcceptor> a;
	const char *kind() const override { return "acceptor"; }
	int port() const { return 100 + id; }
	void create() override {
		u32 g = gen;
		a.reset();
		a.reset(new crab::TCPAcceptor(addr(port()), [this, g] { run(g); }));
	}
	void destroy() override { a.reset(); }
	void run(u32 g) {
		enter(g);
		while (a->can_accept()) {
			Slot *x = w->slots[choose(u32(w->slots.size()))].get();
			auto t = dynamic_cast<SockSlot<crab::TCPSocket> *>(x);
			auto b = dynamic_cast<SockSlot<crab::BufferedTCPSocket> *>(x);
			if (t && t->alive) {
				t->sess.reset();
				t->st = t->LIVE;
				t->s->accept(*a);
			} else if (b && b->alive) {
				b->sess.reset();
				b->shut = false;
				b->st = b->LIVE;
				b->s->accept(*a);
			} else {
				crab::TCPSocket tmp([] { fail("after-destroy", "the handler of a temporary socket runs"); });
				tmp.accept(*a);
				if (choose(2))
					tmp.close(true);
			}
		}
		w->acted(this);
	}
	void op() override {
		int p = port();
		World *pw = w;
		after(i64(choose(4)) * 10 * MS, [pw, p] {
			auto r = raw_connect(p);
			pw->knockers.push_back(r);
			std::weak_ptr<RawConn> weak = r;
			u32 e = choose(3);
			after(i64(1 + choose(6)) * 10 * MS, [weak, e] {
				auto r = weak.lock();
				if (!r || !r->open())
					return;
				if (e == 0)
					r->send("hello");
				else if (e == 1)
					r->close();
				else
					r->reset();
			});
		});
	}
	void check_final() override { SIM_CHECK(!alive || !listen_backlog(port()), "lost", "%s: %zu connections wait", name().c_str(), listen_backlog(port())); }
};
struct UdpSlot : Slot {
	std::unique_ptr<crab::UDPReceiver> a;
	const char *kind() const override { return "receiver"; }
	int port() const { return 200 + id; }
	void create() override {
		u32 g = gen;
		a.reset();
		a.reset(new crab::UDPReceiver(addr(port()), [this, g] { run(g); }));
	}
	void destroy() override { a.reset(); }
	int sent = 0, got = 0;
	void run(u32 g) {
		enter(g);
		u8 b[100];
		while (a->read_datagram(b, sizeof b)) {
		}
		w->acted(this);
	}
	void op() override {
		int p = port();
		after(i64(choose(4)) * 10 * MS, [p] { udp_raw_send(7, p, "datagram"); });
	}
	void check_final() override {
		if (!alive)
			return;
		u8 b[100];
		SIM_CHECK(!a->read_datagram(b, sizeof b), "lost", "%s: datagrams wait unread", name().c_str());
	}
};
struct DnsSlot : Slot {
	std::unique_ptr<crab::DNSResolver> d;
	bool waiting = false;
	const char *kind() const override { return "resolver"; }
	void create() override {
		waiting = false;
		u32 g = gen;
		d.reset(new crab::DNSResolver([this, g](const std::vector<crab::Address> &names) { run(g, names.size()); }));
	}
	void destroy() override { d.reset(); }
	void run(u32 g, size_t n) {
		enter(g);
		SIM_CHECK(waiting, "after-cancel", "the handler of %s runs although nothing is asked", name().c_str());
		(void)n;
		waiting = false;
		w->acted(this);
	}
	void op() override {
		if (choose(3)) {
			waiting = true;
			d->resolve(choose(4) ? "good" : "bad", 80, true, choose(2));
		} else {
			waiting = false;
			d->cancel();
		}
	}
	void check_final() override { SIM_CHECK(!alive || !waiting, "lost", "%s: no answer", name().c_str()); }
};
struct RequestSlot : Slot {
	std::unique_ptr<ch::ClientRequestSimple> c;
	bool waiting = false;
	const char *kind() const override { return "request"; }
	void create() override {
		waiting = false;
		u32 g = gen;
		c.reset(new ch::ClientRequestSimple([this, g](ch::Response &&) { run(g); }, [this, g](std::string &&) { run(g); }));
	}
	void destroy() override { c.reset(); }
	void run(u32 g) {
		enter(g);
		SIM_CHECK(waiting, "after-cancel", "a handler of %s runs although nothing is asked", name().c_str());
		waiting = false;
		w->acted(this);
	}
	void op() override {
		if (!waiting && choose(4)) {
			waiting = true;
			ch::Request rq;
			c->get(choose(4) ? "http://good:92/" : choose(2) ? "http://bad:92/" : "http://good:93/");
		} else {
			waiting = false;
			c->cancel();
		}
	}
	void check_final() override { SIM_CHECK(!alive || !waiting, "lost", "%s: no answer", name().c_str()); }
};
struct ConnSlot : Slot {  // ClientConnection, by address or name
	std::unique_ptr<ch::ClientConnection> c;
	bool on = false, asked = false;
	const char *kind() const override { return "connection"; }
	void create() override {
		on = false;
		u32 g = gen;
		c.reset(new ch::ClientConnection([this, g] { run(g); }));
	}
	void destroy() override { c.reset(); }
	void run(u32 g) {
		enter(g);
		SIM_CHECK(on, "after-close", "the handler of %s runs although it is closed", name().c_str());
		if (!c->is_open()) {
			on = false;
		} else {
			ch::Response r;
			if (c->read_next(r))
				asked = false;
		}
		w->acted(this);
	}
	void op() override {
		if (!on || choose(5) == 0) {
			on = true;
			asked = false;
			if (choose(2))
				c->connect(choose(4) ? "good" : "bad", choose(4) ? 92 : 93);
			else
				on = c->connect(addr(choose(4) ? 92 : 93));
		} else if (!asked && choose(3)) {
			asked = true;
			c->write(ch::Request("good", "GET", "/"));
		} else {
			on = false;
			c->close();
			SIM_CHECK(!c->is_open(), "is_open", "%s is open after close()", name().c_str());
		}
	}
	void check_final() override { SIM_CHECK(!alive || !on || !asked, "lost", "%s: no answer", name().c_str()); }
};
}  // namespace

SCENARIO(lifetime) {
	swarm({F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_EPOLL_PARTIAL, F_EPOLL_REORDER, F_SHORT_READ, F_LATE_WAKE, F_CONNECT_IMMEDIATE});
	if (choose(3) == 0)
		random_net_config();
	cfg.step_limit = 1000000;
	dns_model = [](const std::string &h, int, int) {
		DnsAnswer a;
		a.ok = h == "good";
		a.addrs.emplace_back("127.0.0.1", 4);
		a.delay = i64(choose(4)) * 10 * MS;
		return a;
	};
	World w;
	World *pw = &w;
	w.heavy = choose(2);
	raw_listen(92, [pw](RawPtr r) {
		pw->web.push_back(r);
		std::weak_ptr<RawConn> weak = r;
		auto pos = std::make_shared<size_t>(0);
		auto f = [weak, pos] {
			auto r = weak.lock();
			size_t e;
			while (r && r->open() && (e = r->in.find("\r\n\r\n", *pos)) != std::string::npos) {
				*pos = e + 4;
				after(i64(choose(3)) * 10 * MS, [weak] {
					auto r = weak.lock();
					if (!r || !r->open())
						return;
					switch (choose(4)) {
					case 0: r->close(); break;
					default: r->send("HTTP/1.1 200 OK\r\ncontent-length: 2\r\n\r\nok"); break;
					}
				});
			}
			if (r && r->got_fin && !r->closed)
				r->close();
		};
		r->on_event = f;
		f();
	});
	w.driver.reset(new crab::Timer([pw] { pw->drive(); }));
	auto add = [&](Slot *s) {
		s->w = pw;
		s->id = int(w.slots.size());
		w.slots.emplace_back(s);
		if (choose(4))
			s->renew();
	};
	int n = 4 + int(choose(14));
	for (int i = 0; i < n; i++)
		switch (weighted({4, 3, 2, 4, 4, 2, 2, 2, 2, 2})) {
		case 0: add(new TimerSlot); break;
		case 1: add(new WatcherSlot); break;
		case 2: add(new IdleSlot); break;
		case 3: add(new SockSlot<crab::TCPSocket>); break;
		case 4: add(new SockSlot<crab::BufferedTCPSocket>); break;
		case 5: add(new AcceptorSlot); break;
		case 6: add(new UdpSlot); break;
		case 7: add(new DnsSlot); break;
		case 8: add(new RequestSlot); break;
		case 9: add(new ConnSlot); break;
		}
	w.left = int(size_log(20, 400));
	w.drive();
	run_until(w.rl, 100 * SEC, [pw] { return pw->left <= 0; });
	w.left = 0;
	stop_faults();
	w.driver->cancel();
	run_for(w.rl, 40 * SEC);
	for (auto &s : w.slots)
		s->check_final();
	if (w.handlers)
		nontrivial();
	drop_events();
	for (auto &r : w.web)
		r->on_event = nullptr;
	for (auto &s : w.slots)
		s->destroy();
	w.slots.clear();
	w.driver.reset();
	w.sessions.clear();
}
