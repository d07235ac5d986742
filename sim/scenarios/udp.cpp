// C12: datagram boundaries, wake-ups of readers and writers.
#include "common.hpp"

typedef uint16_t u16;
namespace {
struct Peer {
	int id = 0;
	bool is_rx = false;           // UDPReceiver, otherwise UDPTransmitter
	std::unique_ptr<crab::UDPReceiver> r;
	std::unique_ptr<crab::UDPTransmitter> t;
	std::unique_ptr<crab::Timer> tm;
	int fd = -1, port = 0, target = 0;
	size_t qpos = 0, spos = 0;    // positions in the global histories
	bool paused = false, want_more = true;
	// output
	struct Out { std::string d; int port; };
	std::deque<Out> todo;
	std::vector<Out> accepted;
	size_t matched = 0;
	bool refused = false;         // the last write returned false, a call is owed
	i64 refused_at = 0;
	u64 calls = 0, got = 0;
	int last_peer = 0;
	struct UdpWorld *w = nullptr;

	void handler();
	void reads();
	void writes();
	void check_sent();
	crab::optional<size_t> rd(u8 *b, size_t n, crab::Address *a) { return is_rx ? r->read_datagram(b, n, a) : t->read_datagram(b, n, a); }
	bool can_write() { return is_rx ? r->can_write() : t->can_write(); }
};
struct UdpWorld {
	crab::RunLoop rl;
	std::vector<std::unique_ptr<Peer>> ps;
	u32 serial = 0;
	u64 delivered = 0, refusals = 0;
	std::vector<int> raw_ports;
	std::string make(size_t n) {
		serial++;
		std::string s = pat(serial, 0, n);
		if (n >= 4)
			memcpy(&s[0], &serial, 4);
		return s;
	}
	size_t size() {
		switch (weighted({6, 1, 2, 1, 1})) {
		case 0: return size_log(1, 1500);
		case 1: return 0;
		case 2: return size_log(1, 9000);
		case 3: return 65507 - choose(3);
		default: return 1 + choose(4);
		}
	}
};
void Peer::check_sent() {
	for (; spos < udp_sent.size(); spos++) {
		if (udp_sent[spos].fd != fd)
			continue;
		const auto &u = udp_sent[spos];
		// accepted datagrams may be swallowed by an error, never repeated or invented
		while (matched < accepted.size() && !(accepted[matched].d == u.data && accepted[matched].port == u.to_port)) {
			SIM_CHECK(fault_count(F_UDP_ICMP) > 0 || accepted[matched].d.size() > 65507, "not-sent", "socket %d: write_datagram() of %d bytes returned true without handing it to the OS", id, int(accepted[matched].d.size()));
			matched++;
		}
		SIM_CHECK(matched < accepted.size(), "repeated", "socket %d: the OS got a datagram of %d bytes to port %d that write_datagram() did not report as written, or got it twice", id, int(u.data.size()), u.to_port);
		matched++;
	}
}
void Peer::handler() {
	ev("h", id);
	calls++;
	refused = false;
	if (choose(2)) {
		reads();
		writes();
	} else {
		writes();
		reads();
	}
}
void Peer::reads() {
	while (!paused) {
		if (choose(30) == 0) {
			paused = true;
			tm->once(double(range(0, 300)) / 1e3);
			break;
		}
		size_t cap = choose(12) == 0 ? choose(3) : choose(3) == 0 ? size_log(1, 2000) : 65507;
		std::string b(cap + 8, '\xEE');
		crab::Address from;
		crab::optional<size_t> res;
		size_t n = 0;
		bool multi = is_rx && choose(6) == 0;
		if (multi) {
			std::vector<crab::UDPReceiver::DatagramBuffer> db(1 + choose(3));
			size_t k = r->read_datagrams(db.data(), db.size());
			SIM_CHECK(k <= db.size(), "overrun", "read_datagrams returned %d of %d", int(k), int(db.size()));
			if (k == 0)
				break;
			if (k != 1)
				fail("overrun", "read_datagrams returned %d buffers", int(k));
			cap = crab::UDPReceiver::MAX_DATAGRAM_SIZE;
			n = db[0].count;
			SIM_CHECK(n <= cap, "overrun", "datagram of %d bytes", int(n));
			b.assign((const char *)db[0].data, n);
			b += std::string(cap + 8 - n, '\xEE');
			from = db[0].peer_addr;
		} else {
			res = rd((u8 *)&b[0], cap, choose(8) ? &from : nullptr);
			if (!res)
				break;
			n = *res;
		}
		SIM_CHECK(n <= cap, "overrun", "socket %d: read_datagram into %d bytes returned %d", id, int(cap), int(n));
		SIM_CHECK(b.compare(n, std::string::npos, std::string(cap + 8 - n, '\xEE')) == 0, "overrun", "socket %d: read_datagram wrote beyond the %d bytes it reported", id, int(n));
		while (qpos < udp_queued.size() && udp_queued[qpos].fd != fd)
			qpos++;
		SIM_CHECK(qpos < udp_queued.size(), "invented", "socket %d: a datagram of %d bytes was read and none is left in its queue", id, int(n));
		const UdpIn &q = udp_queued[qpos++];
		SIM_CHECK(n == std::min(cap, q.data.size()), "boundary", "socket %d: a datagram of %d bytes read into %d gave %d", id, int(q.data.size()), int(cap), int(n));
		SIM_CHECK(b.compare(0, n, q.data, 0, n) == 0, "wrong-bytes", "socket %d: datagram content differs at %d of %d", id, int(diff_at(b.substr(0, n), q.data)), int(n));
		if (from.get_port()) {
			SIM_CHECK(from.get_port() == q.from_port, "wrong-sender", "socket %d: sender port %d, really %d", id, int(from.get_port()), q.from_port);
			last_peer = q.from_port;
		}
		got++;
		w->delivered++;
		if (is_rx && last_peer && choose(6) == 0 && todo.size() < 50)
			todo.push_back(Out{w->make(w->size()), last_peer});  // reply
	}
}
void Peer::writes() {
	while (!todo.empty() && !refused) {
		Out o = todo.front();
		accepted.push_back(o);  // an upper bound while the call lasts
		bool could = can_write(), ok;
		if (is_rx) {
			crab::Address to(o.port >= 30000 ? "10.1.1.1" : "127.0.0.1", u16(o.port));
			ok = r->write_datagram((const u8 *)o.d.data(), o.d.size(), to);
		} else
			ok = t->write_datagram((const u8 *)o.d.data(), o.d.size());
		if (ok) {
			SIM_CHECK(could, "can_write", "socket %d: write_datagram() succeeded while can_write() was false", id);
			todo.pop_front();
			check_sent();
		} else {
			accepted.pop_back();
			check_sent();
			SIM_CHECK(!can_write(), "can_write", "socket %d: write_datagram() returned false and can_write() is true", id);
			refused = true;
			refused_at = now();
			w->refusals++;
		}
	}
}
}  // namespace

SCENARIO(udp) {
	swarm({F_EPOLL_EINTR, F_LATE_WAKE, F_EPOLL_PARTIAL, F_EPOLL_REORDER, F_EPOLL_SPURIOUS, F_UDP_LOSS, F_UDP_DUP, F_UDP_REORDER, F_UDP_ICMP, F_UDP_EAGAIN, F_UDP_RXERR});
	random_net_config();
	UdpWorld w;
	int n = 1 + int(choose(4));
	auto create = [&](Peer *p) {
		auto before = open_fds("udp");
		p->qpos = udp_queued.size();
		p->spos = udp_sent.size();
		p->accepted.clear();
		p->matched = 0;
		p->refused = true;  // the first event is owed
		p->refused_at = now();
		if (p->is_rx) {
			crab::UDPReceiver::Settings st;
			if (choose(4) == 0)
				st.rcvbuf_size = size_log(200, 20000);
			p->r.reset(new crab::UDPReceiver(addr(p->port), [p] { p->handler(); }, st));
		} else
			p->t.reset(new crab::UDPTransmitter(p->target >= 30000 ? crab::Address("10.1.1.1", u16(p->target)) : addr(p->target), [p] { p->handler(); }));
		for (int f : open_fds("udp"))
			if (std::find(before.begin(), before.end(), f) == before.end())
				p->fd = f;
	};
	int rx_port = 0;
	for (int i = 0; i < n; i++) {
		w.ps.emplace_back(new Peer);
		Peer *p = w.ps.back().get();
		p->id = i;
		p->w = &w;
		p->is_rx = i == 0 ? choose(2) == 0 : choose(2);
		p->tm.reset(new crab::Timer([p] {
			p->paused = false;
			p->reads();
			if (choose(2))
				p->writes();
		}));
		if (p->is_rx) {
			p->port = 5000 + i;
			rx_port = p->port;
		} else if (rx_port && choose(2))
			p->target = rx_port;
		else {
			p->target = 30000 + i;
			int tp = p->target;
			if (choose(6))  // otherwise nobody is there
				udp_raw_bind(tp, [tp](const UdpRecv &u) {
					if (choose(3) == 0)
						udp_raw_send(tp, u.from_port, u.data.substr(0, choose(u32(u.data.size() + 1))));
				});
		}
		create(p);
	}
	int waves = 1 + int(choose(6));
	for (int k = 0; k < waves; k++) {
		for (auto &pp : w.ps) {
			Peer *p = pp.get();
			if (p->is_rx) {
				int m = int(size_log(1, 30));
				for (int i = 0; i < m; i++) {
					int port = p->port, from = 31000 + int(choose(3));
					size_t sz = w.size();
					std::string d = w.make(sz);
					after(choose(2) ? 0 : range(0, 300) * MS, [from, port, d] { udp_raw_send(from, port, d); });
				}
				if (choose(4) == 0) {
					int port = p->port;
					after(range(0, 300) * MS, [port] { udp_icmp_error(port, choose(2) ? ECONNREFUSED : EHOSTUNREACH); });
				}
			} else {
				int m = int(size_log(1, 30));
				for (int i = 0; i < m; i++)
					p->todo.push_back(Peer::Out{w.make(choose(60) == 0 ? 65508 + choose(100) : w.size()), p->target});
				if (choose(2))
					p->writes();
			}
			if (choose(12) == 0) {  // a new object in the old one's place
				p->paused = false;
				p->tm->cancel();
				p->r.reset();
				p->t.reset();
				create(p);
				PROBE("recreated");
			}
		}
		run_for(w.rl, range(0, 600) * MS);
		for (auto &p : w.ps)
			if (!p->paused && choose(2)) {
				p->reads();
				p->writes();
			}
		// a quiet period: whatever arrived must have been read, whatever was refused must have been retried
		run_for(w.rl, 3 * SEC);
		for (auto &p : w.ps) {
			p->check_sent();
			SIM_CHECK(!p->refused, "writer-stalled", "socket %d: write_datagram() returned false at %.3f and no call followed by %.3f", p->id, p->refused_at / 1e9, now() / 1e9);
			if (!p->paused)
				SIM_CHECK(udp_rcvq(p->fd) == 0, "reader-stalled", "socket %d: read until nothing was returned, %d datagrams are waiting and no call came", p->id, int(udp_rcvq(p->fd)));
		}
		for (auto &p : w.ps)
			if (!p->todo.empty() && !p->refused)
				p->writes();
	}
	if (w.delivered || w.refusals)
		nontrivial();
	drop_events();
}
