// C06: byte streams over TCPSocket. C07: connect verdicts and disconnect notifications.
#include "common.hpp"

namespace {
struct Dir {
	u32 key = 0;
	u64 total = 0, sent = 0, rcvd = 0;
	bool done() const { return rcvd == total && sent == total; }
};
struct End {
	int id = 0;
	Dir *out = nullptr, *in = nullptr;
	bool is_crab = false;
	bool paused_r = false, paused_w = false;
	int pauses = 0;
	bool live = false;     // open, no close seen or asked
	bool i_closed = false;
	int closed_calls = 0;
	bool closing = false;  // both directions complete: a disconnect is legitimate now
	// crab
	std::unique_ptr<crab::TCPSocket> s;
	std::unique_ptr<crab::Timer> tm;
	std::unique_ptr<crab::Buffer> rbuf;
	// raw
	RawPtr raw;
	u64 checked = 0;

	void make() {
		is_crab = true;
		s.reset(new crab::TCPSocket([this] { handler(); }));
		tm.reset(new crab::Timer([this] {
			paused_r = paused_w = false;
			if (live)
				work();
		}));
	}
	void check_bytes(const std::string &got) {
		SIM_CHECK(in->rcvd + got.size() <= in->total, "extra-bytes", "end %d received %d bytes beyond the %d that were sent", id, int(in->rcvd + got.size() - in->total), int(in->total));
		std::string want = pat(in->key, in->rcvd, got.size());
		if (got != want) {
			size_t d = diff_at(got, want);
			fail("wrong-bytes", "end %d: byte %d of the stream is %02x, expected %02x", id, int(in->rcvd + d), u8(got[d]), u8(want[d]));
		}
		in->rcvd += got.size();
	}
	void handler() {
		ev("h", id, s->is_open());
		if (i_closed)
			fail("call-after-close", "end %d: handler called after close()", id);
		SIM_CHECK(live, "call-when-closed", "end %d: handler called on a socket that is already known to be closed", id);
		if (!s->is_open()) {
			closed_calls++;
			live = false;
			SIM_CHECK(closing, "premature-close", "end %d: disconnected with %d of %d received, %d of %d sent, and the peer did nothing", id, int(in->rcvd), int(in->total), int(out->sent), int(out->total));
			return;
		}
		work();
	}
	void work() {
		if (choose(2)) {
			rd();
			wr();
		} else {
			wr();
			rd();
		}
	}
	void pause(bool &which) {
		if (pauses >= 6 || choose(40))
			return;
		pauses++;
		which = true;
		tm->once(double(range(0, 2000)) / 1e3);
		PROBE("user_pause");
	}
	void rd() {
		for (int i = 0; i < 100000 && !paused_r && s->is_open(); i++) {
			size_t n;
			std::string got;
			switch (choose(5)) {
			case 0: {  // two buffers
				size_t a = choose(4) ? size_log(1, 3000) : 0, b = choose(4) || !a ? size_log(1, 3000) : 0;
				std::string x(a + 8, '\xEE'), y(b + 8, '\xEE');
				n = s->read_some((u8 *)&x[0], a, (u8 *)&y[0], b);
				SIM_CHECK(n <= a + b, "read-overrun", "end %d: read_some(%d, %d) returned %d", id, int(a), int(b), int(n));
				got = x.substr(0, std::min(n, a)) + y.substr(0, n > a ? n - a : 0);
				SIM_CHECK(x.substr(a) == std::string(8, '\xEE') && y.substr(b) == std::string(8, '\xEE'), "read-overrun", "end %d: read_some wrote past the buffers", id);
				break;
			}
			case 1: {  // circular buffer with its own geometry
				if (!rbuf) {
					rbuf.reset(new crab::Buffer(size_log(1, 5000)));
				}
				n = rbuf->read_from(*s);
				std::string tmp(rbuf->size(), 0);
				// leave some bytes inside so that the buffer wraps
				size_t keep = choose(3) == 0 && rbuf->size() < rbuf->capacity() ? choose(u32(rbuf->size() + 1)) : 0;
				tmp.resize(rbuf->size() - keep);
				if (!tmp.empty())
					rbuf->read_some(&tmp[0], tmp.size());
				check_bytes(tmp);
				if (n == 0) {
					if (rbuf->full())
						continue;  // could not read because of our own buffer
					drain();
					note_eof_read();
					return;
				}
				continue;
			}
			default: {
				drain();
				size_t a = size_log(1, 70000);
				std::string x(a + 8, '\xEE');
				n = s->read_some((u8 *)&x[0], a);
				SIM_CHECK(n <= a, "read-overrun", "end %d: read_some(%d) returned %d", id, int(a), int(n));
				SIM_CHECK(x.substr(n) == std::string(a + 8 - n, '\xEE'), "read-overrun", "end %d: read_some(%d)=%d wrote beyond what it reported", id, int(a), int(n));
				got = x.substr(0, n);
			}
			}
			drain();
			if (!got.empty())
				check_bytes(got);
			if (n == 0) {
				note_eof_read();
				return;
			}
			pause(paused_r);
		}
		drain();
	}
	void drain() {
		if (rbuf && rbuf->size()) {
			std::string tmp(rbuf->size(), 0);
			rbuf->read_some(&tmp[0], tmp.size());
			check_bytes(tmp);
		}
	}
	void note_eof_read() {}
	void wr() {
		while (!paused_w && out->sent < out->total && s->is_open()) {
			u64 left = out->total - out->sent;
			size_t n, asked;
			if (choose(3) == 0) {  // gather
				std::deque<crab::Buffer> q;
				size_t k = 1 + choose(20);
				asked = 0;
				for (size_t i = 0; i < k; i++) {
					size_t m = std::min<u64>(choose(4) ? size_log(1, 3000) : 0, left - asked);
					size_t capac = m + choose(3);
					size_t rot = capac > 1 ? choose(u32(capac)) : 0;  // data placed across the end of the ring
					crab::Buffer b(std::max<size_t>(capac, 1));
					if (rot) {
						b.did_write(rot);
						std::string junk(1, 0);
						if (m) {  // write first part, drop the junk, write the rest
							std::string p = pat(out->key, out->sent + asked, m);
							size_t first = std::min(m, b.capacity() - rot);
							b.write((const u8 *)p.data(), first);
							b.did_read(rot);
							b.write((const u8 *)p.data() + first, m - first);
						} else
							b.did_read(rot);
					} else if (m) {
						std::string p = pat(out->key, out->sent, 0) + pat(out->key, out->sent + asked, m);
						b.write((const u8 *)p.data(), m);
					}
					asked += m;
					q.push_back(std::move(b));
				}
				if (!asked)
					continue;
				// only the first 16 pieces can be taken by one call
				n = s->write_some(q);
			} else {
				asked = size_t(std::min<u64>(left, size_log(1, 100000)));
				std::string p = pat(out->key, out->sent, asked);
				n = s->write_some((const u8 *)p.data(), asked);
			}
			SIM_CHECK(n <= asked, "write-overrun", "end %d: write_some of %d bytes returned %d", id, int(asked), int(n));
			out->sent += n;
			if (n == 0) {
				if (s->is_open())
					SIM_CHECK(!s->can_write(), "can_write", "end %d: write_some returned 0 but can_write() is true", id);
				break;
			}
			SIM_CHECK(!s->is_open() || s->can_write(), "can_write", "end %d: write_some took %d bytes but can_write() is false", id, int(n));
			pause(paused_w);
		}
	}
	// ---- raw side
	void raw_start(RawPtr r) {
		raw = r;
		live = true;
		r->on_event = [this] { raw_event(); };
		raw_event();
		raw_send();
		if (choose(3) == 0)
			raw_stall();
	}
	void raw_stall() {
		if (pauses++ >= 3 || !raw->open())
			return;
		count_fault(F_PEER_STALL);
		raw->set_reading(false);
		after(range(1, 3000) * MS, [this] {
			raw->set_reading(true);
			if (choose(2))
				after(range(1, 500) * MS, [this] { raw_stall(); });
		});
	}
	void raw_send() {
		if (out->sent >= out->total || !raw->open())
			return;
		size_t n = size_t(std::min<u64>(out->total - out->sent, size_log(1, 60000)));
		raw->send(pat(out->key, out->sent, n));
		out->sent += n;
		after(choose(3) ? range(0, 20) * MS : 0, [this] { raw_send(); });
	}
	void raw_event() {
		if (raw->in.size() > checked) {
			std::string got = raw->in.substr(checked);
			checked = raw->in.size();
			check_bytes(got);
		}
		SIM_CHECK(!raw->got_rst || closing, "peer-reset", "the library reset a healthy connection (end %d)", id);
		SIM_CHECK(!raw->got_fin || closing, "early-fin", "the library ended a stream at byte %d of %d (end %d)", int(in->rcvd), int(in->total), id);
		if (raw->got_fin)
			raw->close();
	}
};
struct Pair {
	int id;
	Dir d[2];
	End e[2];
	std::unique_ptr<crab::TCPAcceptor> acc;
	bool up = false;
	int accepted = 0;
	bool done() const { return d[0].done() && d[1].done(); }
};
void connect_pair(Pair &p, int mode) {
	int port = 5000 + p.id;
	p.e[0].id = p.id * 2;
	p.e[1].id = p.id * 2 + 1;
	p.e[0].out = p.e[1].in = &p.d[0];
	p.e[0].in = p.e[1].out = &p.d[1];
	auto accept_fn = [&p] {
		while (p.acc->can_accept()) {
			SIM_CHECK(p.accepted++ == 0, "accept-twice", "pair %d accepted twice", p.id);
			p.e[1].make();
			p.e[1].live = true;
			p.e[1].s->accept(*p.acc);
			if (choose(2) && p.e[1].s->is_open())
				p.e[1].work();  // before the first event: nothing may go wrong
		}
	};
	if (mode != 1)
		p.acc.reset(new crab::TCPAcceptor(addr(port), accept_fn));
	if (mode == 0) {
		RawPtr r = raw_connect(port, range(0, 5) * MS);
		End *e = &p.e[0];
		r->on_event = [e, r] {
			if (r->connected && !e->raw)
				e->raw_start(r);
		};
	} else {
		if (mode == 1)
			raw_listen(port, [&p](RawPtr r) { p.e[1].raw_start(r); });
		p.e[0].make();
		crab::TCPSocket::Settings st;
		st.tcp_delay = choose(2);
		if (choose(4) == 0)
			st.sndbuf_size = size_log(100, 100000);
		if (choose(4) == 0)
			st.rcvbuf_size = size_log(100, 100000);
		p.e[0].live = true;
		if (!p.e[0].s->connect(addr(port), st))
			fail("connect-false", "connect() returned false without any injected failure");
	}
}
}  // namespace

SCENARIO(tcp_stream) {
	swarm({F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_LATE_WAKE, F_EPOLL_PARTIAL, F_EPOLL_REORDER, F_SHORT_READ, F_SHORT_WRITE, F_SEND_EAGAIN, F_CONNECT_IMMEDIATE});
	random_net_config();
	crab::RunLoop rl;
	size_t small = std::min(cfg.sndbuf, cfg.rcvbuf);
	size_t maxlen = small < 100 ? 3000 : small < 1000 ? 20000 : 150000;
	int np = 1 + int(weighted({5, 2, 1}));
	std::vector<std::unique_ptr<Pair>> ps;
	for (int i = 0; i < np; i++) {
		ps.emplace_back(new Pair);
		Pair &p = *ps.back();
		p.id = i;
		for (int k = 0; k < 2; k++) {
			p.d[k].key = u32(1 + i * 2 + k);
			p.d[k].total = choose(5) ? size_log(1, maxlen) : 0;
		}
		connect_pair(p, int(choose(3)));
	}
	run_until(rl, 20000 * SEC, [&] {
		for (auto &p : ps)
			if (!p->done())
				return false;
		return true;
	});
	for (auto &p : ps) {
		for (int k = 0; k < 2; k++)
			SIM_CHECK(p->d[k].done(), "stalled", "pair %d direction %d: %d of %d accepted, %d received, and nothing will ever happen (can_write=%d)", p->id, k, int(p->d[k].sent), int(p->d[k].total), int(p->d[k].rcvd), p->e[k].s ? p->e[k].s->can_write() : -1);
		if (p->d[0].total + p->d[1].total > 0)
			nontrivial();
	}
	// end of stream, ordered after the data (which is all there)
	stop_faults();
	run_for(rl, 3 * SEC);
	for (auto &p : ps) {
		p->e[0].closing = p->e[1].closing = true;
		End &a = p->e[choose(2)];
		if (a.is_crab) {
			if (choose(3) == 0 && a.s->can_write())
				a.s->write_shutdown();
			else {
				a.i_closed = true;
				a.live = false;
				a.s->close();
				SIM_CHECK(!a.s->is_open(), "is_open", "is_open() after close()");
			}
		} else if (a.raw) {
			if (choose(2))
				a.raw->fin();
			else
				a.raw->close();
			End &b = &a == &p->e[0] ? p->e[1] : p->e[0];
			if (!b.is_crab)
				harness_error("no crab end");
		}
	}
	run_for(rl, 20 * SEC);
	for (auto &p : ps)
		for (int k = 0; k < 2; k++) {
			End &e = p->e[k];
			if (e.is_crab && !e.i_closed)
				SIM_CHECK(e.closed_calls == 1 && !e.live, "close-missed", "end %d: peer ended the stream, %d notifications", e.id, e.closed_calls);
			if (!e.is_crab && e.raw)
				SIM_CHECK(e.raw->closed || e.raw->got_fin || e.raw->got_rst, "fin-missed", "end %d did not see the end of stream", e.id);
		}
	drop_events();
}

// ---------------------------------------------------------------- C07
namespace {
struct Life {
	int id;
	std::unique_ptr<crab::TCPSocket> s;
	std::unique_ptr<crab::Timer> tm;
	// session
	enum St { IDLE, CONNECTING, OPEN, WAITING } st = IDLE;
	std::unique_ptr<crab::TCPAcceptor> acc;
	RawPtr caller;
	int sess = 0;
	i64 began = 0;
	RawPtr peer;
	u64 rcvd = 0, peer_sent = 0;
	bool peer_graceful = false, peer_ended = false, wrote = false, forced = false;
	i64 peer_end_at = 0;
	int rounds = 0;
	u32 key = 0;
	bool expect_notice = false;  // close(true) asked
	bool flood = false;
	u64 flood_left = 0;
	struct LifeWorld *w = nullptr;

	void make();
	void handler();
	void use();
	void next();
	void begin();
	void wait_for_caller();
	void accepted();
	void end_session(const char *why) {
		ev(why, id, sess);
		st = IDLE;
		peer.reset();
	}
};
struct LifeWorld {
	crab::RunLoop rl;
	std::vector<std::unique_ptr<Life>> ls;
	std::unique_ptr<crab::TCPAcceptor> acc;
	std::deque<RawPtr> to_accept;
	bool with_accept = false;
	u64 sessions = 0, failed = 0, ended = 0;
};
void peer_script(Life *l, RawPtr r, int sess) {
	if (l->sess != sess || l->st == Life::IDLE)
		return;  // that session is over already
	l->peer = r;
	auto alive = [l, r, sess] { return l->sess == sess && l->peer == r; };
	if (choose(l->flood ? 2 : 8) == 0)
		r->set_reading(false);
	// some data, then an ending of some kind, or none
	int n = int(choose(4));
	i64 t = 0;
	for (int i = 0; i < n; i++) {
		t += choose(2) ? range(0, 30) * MS : 0;
		after(t, [l, r, alive] {
			if (!alive() || !r->open() || l->peer_ended)
				return;
			size_t k = size_log(1, 9000);
			r->send(pat(l->key, l->peer_sent, k));
			l->peer_sent += k;
		});
	}
	int how = int(weighted({3, 2, 3, 1}));
	t += choose(2) ? range(0, 200) * MS : 0;
	after(t, [l, r, alive, how] {
		if (!alive() || !r->open() || l->peer_ended)
			return;
		switch (how) {
		case 0:
			count_fault(F_PEER_FIN);
			r->fin();
			l->peer_graceful = true;
			break;
		case 1:
			count_fault(F_PEER_FIN);
			l->peer_graceful = r->in.empty() || true;
			r->close();
			break;
		case 2:
			count_fault(F_PEER_RESET);
			r->reset();
			break;
		case 3: return;
		}
		l->peer_ended = true;
		l->peer_end_at = now();
	});
}
void Life::make() {
	s.reset(new crab::TCPSocket([this] { handler(); }));
	tm.reset(new crab::Timer([this] { next(); }));
}
void Life::begin() {
	rounds--;
	sess++;
	key = u32(id * 1000 + sess);
	rcvd = peer_sent = 0;
	peer_graceful = peer_ended = wrote = forced = expect_notice = false;
	flood = choose(5) == 0;
	flood_left = std::min<u64>(100000, 3 * (cfg.sndbuf + cfg.rcvbuf));
	began = now();
	peer.reset();
	st = CONNECTING;
	w->sessions++;
	int port = 6000 + id * 100 + sess, this_sess = sess;
	acc.reset();
	caller.reset();
	if (w->with_accept && choose(3) == 0)
		return wait_for_caller();
	if (choose(8))
		raw_listen(port, [this, this_sess](RawPtr r) { peer_script(this, r, this_sess); });
	bool r = s->connect(addr(port));
	ev("connect()", id, r);
	if (!r) {
		SIM_CHECK(!s->is_open(), "is_open", "connect() returned false but is_open() is true");
		st = IDLE;
		w->failed++;
		PROBE("connect_false");
		tm->once(double(range(0, 300)) / 1e3);
	} else {
		SIM_CHECK(s->is_open(), "is_open", "connect() returned true but is_open() is false");
		if (choose(12) == 0)
			tm->once(double(range(0, 100)) / 1e3);  // user loses patience while connecting
		if (choose(6) == 0)
			use();
	}
}
void Life::wait_for_caller() {
	int port = 6000 + id * 100 + sess;
	s->close();
	st = WAITING;
	try {
		acc.reset(new crab::TCPAcceptor(addr(port), [this] { accepted(); }));
	} catch (const std::exception &) {
		st = IDLE;
		w->failed++;
		tm->once(double(range(0, 300)) / 1e3);
		return;
	}
	caller = raw_connect(port, range(0, 20) * MS);
	tm->once(3);
}
void Life::accepted() {
	if (st != WAITING || !acc->can_accept())
		return;
	PROBE("life_accept");
	if (choose(4) == 0) {  // whatever the object was doing must not leak into the accepted connection
		s->connect(addr(6999));
		PROBE("life_accept_over_connect");
	}
	tm->cancel();
	u32 f = fault_count(F_SYSCALL_FAIL);
	if (choose(20) == 0)  // registration is the only call that can fail
		fail_kth_syscall(fallible_calls());
	st = CONNECTING;
	began = now();
	crab::Address a;
	s->accept(*acc, &a);
	if (fault_count(F_SYSCALL_FAIL) != f) {
		PROBE("life_accept_failed");
		forced = true;
	}
	ev("accepted", id, forced);
	SIM_CHECK(s->is_open(), "is_open", "socket %d: accept() gave a socket that is not open and no notification can follow", id);
	peer_script(this, caller, sess);
}
void Life::next() {
	if (st == WAITING) {  // nobody came
		acc.reset();
		st = IDLE;
	}
	if (st == IDLE) {
		if (rounds > 0)
			begin();
		return;
	}
	// user ends the session
	switch (choose(3)) {
	case 0:
		s->close();
		SIM_CHECK(!s->is_open(), "is_open", "is_open() after close()");
		end_session("user_close");
		tm->once(double(range(0, 300)) / 1e3);
		break;
	case 1:
		expect_notice = true;
		forced = true;
		s->close(true);
		SIM_CHECK(s->is_open(), "is_open", "close(true) leaves the close event pending, is_open() must stay true until it is delivered");
		PROBE("close_true");
		break;
	case 2:
		end_session("user_reconnect");
		if (rounds > 0)
			begin();
		else
			s->close();
		break;
	}
}
void Life::handler() {
	ev("h", id, s->is_open(), st);
	SIM_CHECK(st != IDLE && st != WAITING, "call-when-closed", "socket %d: handler called while closed (session %d)", id, sess);
	if (!s->is_open()) {
		SIM_CHECK(s->is_open() == false, "is_open", "unstable");
		bool connecting = st == CONNECTING;
		if (peer && peer_ended && peer_graceful && !wrote && !forced)
			SIM_CHECK(rcvd == peer_sent, "data-lost", "socket %d: peer sent %d bytes and closed gracefully, only %d were delivered before the close", id, int(peer_sent), int(rcvd));
		if (!peer_ended && !forced && peer && peer->open() && !wrote)
			fail("false-close", "socket %d: told closed although the peer did nothing (connecting %d)", id, connecting);
		end_session("closed");
		w->ended++;
		if (choose(2) && rounds > 0)
			begin();  // from inside the handler
		else
			tm->once(double(range(0, 300)) / 1e3);
		return;
	}
	SIM_CHECK(!expect_notice, "call-after-close", "socket %d: call with is_open() after close(true)", id);
	if (st == CONNECTING) {
		// a spurious wake-up is possible while connecting; writability is the verdict
		if (s->can_write())
			st = OPEN;
	}
	use();
}
void Life::use() {
	u8 buf[3000];
	u32 way = choose(4);
	while (s->is_open()) {
		size_t n, a = 1 + choose(sizeof buf);
		if (way == 0) {
			size_t b = choose(u32(a + 1));
			n = s->read_some(buf, b, buf + b, a - b);
		} else if (way == 1) {
			crab::Buffer rb(a);
			n = rb.read_from(*s);
			rb.peek(buf, n);
		} else
			n = s->read_some(buf, a);
		if (!n)
			break;
		std::string got((char *)buf, n), want = pat(key, rcvd, n);
		SIM_CHECK(rcvd + n <= peer_sent && got == want, "wrong-bytes", "socket %d session %d: wrong bytes at %d (sent %d)", id, sess, int(rcvd), int(peer_sent));
		rcvd += n;
	}
	if (flood && st == OPEN && s->is_open() && !expect_notice) {
		while (flood_left && s->is_open()) {
			std::string x(std::min<u64>(3000, flood_left), 'f');
			size_t n = s->write_some((const u8 *)x.data(), x.size());
			if (!n)
				break;
			flood_left -= n;
			wrote = true;
		}
		if (s->is_open() && !s->can_write())
			PROBE("life_write_blocked");
	} else if (s->is_open() && !expect_notice && choose(5) == 0) {
		std::string x(size_log(1, 3000), 'w');
		size_t n = s->write_some((const u8 *)x.data(), x.size());
		if (n)
			wrote = true;
	}
	if (st == OPEN && !expect_notice && choose(12) == 0 && !tm->is_set())
		tm->once(double(range(0, 400)) / 1e3);
}
}  // namespace

SCENARIO(tcp_life) {
	swarm({F_EPOLL_EINTR, F_LATE_WAKE, F_EPOLL_PARTIAL, F_EPOLL_REORDER, F_EPOLL_SPURIOUS, F_SHORT_READ, F_SHORT_WRITE, F_SEND_EAGAIN, F_CONNECT_REFUSED, F_CONNECT_TIMEOUT, F_CONNECT_FAIL_NOW, F_CONNECT_IMMEDIATE});
	random_net_config();
	LifeWorld w;
	w.with_accept = choose(2);
	int n = 1 + int(choose(4));
	for (int i = 0; i < n; i++) {
		w.ls.emplace_back(new Life);
		Life *l = w.ls.back().get();
		l->id = i;
		l->w = &w;
		l->rounds = 1 + int(choose(6));
		l->make();
	}
	if (choose(3) == 0)
		after(range(0, 500) * MS, [] { fail_kth_syscall(fallible_calls() + range(0, 12)); });
	for (auto &l : w.ls)
		l->begin();
	auto quiet = [&] {
		for (auto &l : w.ls)
			if (l->rounds > 0 || (l->st != Life::IDLE && !(l->st == Life::OPEN && l->peer && l->peer->open() && !l->peer_ended)))
				return false;
		return true;
	};
	run_until(w.rl, 5000 * SEC, quiet);
	stop_faults();
	fail_kth_syscall(-1);
	run_for(w.rl, 5 * SEC);
	for (auto &l : w.ls) {
		if (l->st == Life::CONNECTING)
			fail("no-verdict", "socket %d: connect() returned true %.1f s ago and no verdict came", l->id, (now() - l->began) / 1e9);
		if (l->st == Life::OPEN && l->peer && (l->peer_ended || !l->peer->open()))
			fail("close-missed", "socket %d: the peer ended the connection at %.3f and the user was not told by %.3f", l->id, l->peer_end_at / 1e9, now() / 1e9);
		SIM_CHECK(!l->expect_notice || l->st == Life::IDLE, "close-missed", "socket %d: close(true) was not followed by a call", l->id);
		SIM_CHECK(!(l->st == Life::IDLE && l->s->is_open()), "is_open", "socket %d open after its end was reported", l->id);
	}
	if (w.ended)
		nontrivial();
	for (auto &l : w.ls) {
		l->tm->cancel();
		l->s->close();
		l->st = Life::IDLE;
		l->acc.reset();
	}
	run_for(w.rl, 1 * SEC);
	drop_events();
	for (auto &l : w.ls)
		l->s.reset();
}
