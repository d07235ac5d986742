// C10: BufferedTCPSocket output order and accounting. C11: write_shutdown.
#include "common.hpp"

namespace {
struct Buf {
	int id = 0;
	std::unique_ptr<crab::BufferedTCPSocket> s;
	std::unique_ptr<crab::Timer> tm;
	struct BufWorld *w = nullptr;
	// session
	int sess = 0, rounds = 1;
	bool live = false, shut_asked = false, saw_writable = false;
	std::string expected;        // every byte accepted so far, in call order
	u64 direct = 0;              // part of them before any connection was known
	u64 owed = 0;                // must reach the peer without further calls
	u64 budget = 0;
	RawPtr peer;
	u32 key = 0;
	int notices = 0;
	bool may_close = false;      // the peer did something that ends the session
	bool forced = false;
	// shutdown
	bool with_shutdown = false, wrote_after = false, quiet_peer = true, peer_fin = false, peer_rst = false;
	i64 shut_at = 0, flush_seen = 0, fin_seen = 0, fin_at = 0, reading_since = 0, closed_at = 0, busy_at_fin = 0;
	u64 rcvd = 0;
	int reopen_stalls = 0;

	u64 handed() const { return peer ? peer->peer_sent() : 0; }
	void check_size() {
		if (!s->is_open() || forced || !live)
			return;
		u64 want = expected.size() - handed();
		SIM_CHECK(s->get_total_buffer_size() == want, "size", "socket %d: get_total_buffer_size() is %d, %d bytes accepted and %d handed to the OS", id, int(s->get_total_buffer_size()), int(expected.size()), int(handed()));
	}
	void make();
	void begin(int how);
	void handler();
	void ops(int n);
	void tick();
	void shutdown();
	void reads();
	void check_peer(bool final_);
	void attach(RawPtr r);
	void closed_now() {
		live = false;
		closed_at = now();
		SIM_CHECK(s->get_total_buffer_size() == 0, "size", "socket %d: get_total_buffer_size() is %d when closed", id, int(s->get_total_buffer_size()));
		SIM_CHECK(!s->is_open(), "is_open", "socket %d open after close", id);
	}
};
struct BufWorld {
	crab::RunLoop rl;
	std::vector<std::unique_ptr<Buf>> bs;
	std::unique_ptr<crab::TCPAcceptor> acc;
	bool shutdown_mode = false, winding_down = false;
	u64 moved = 0, shutdowns = 0;
};
void Buf::make() {
	s.reset(new crab::BufferedTCPSocket([this] { handler(); }));
	tm.reset(new crab::Timer([this] { tick(); }));
}
void Buf::attach(RawPtr r) {
	peer = r;
	reading_since = now();
	int my = sess;
	// checked whenever the peer notices something
	std::weak_ptr<RawConn> weak = r;
	r->on_event = [this, weak, my] {
		auto p = weak.lock();
		if (!p || my != sess || p != peer)
			return;
		check_peer(false);
		if (shut_asked && p->got_fin && !peer_fin && p->open() && quiet_peer && choose(3)) {  // a well-behaved peer finishes too
			peer_fin = may_close = true;
			fin_at = now();
			busy_at_fin = busy_total;
			p->fin();
		}
	};
	if (choose(3) == 0) {  // slow reader
		r->set_reading(false);
		reading_since = INT64_MAX;
		i64 stall = range(1, 4000) * MS;
		if (w->shutdown_mode && choose(3) == 0) {  // longer than any timer in the library
			stall = range(14, 50) * SEC;
			PROBE("long_peer_stall");
		}
		after(stall, [this, weak, my] {
			auto p = weak.lock();
			if (p && my == sess && reading_since == INT64_MAX) {
				reading_since = now();
				p->set_reading(true);
			}
		});
		PROBE("peer_stall");
	}
	if (choose(4) == 0 && cfg.rcvbuf >= 600)
		r->set_rcvbuf(size_log(500, 10000));
	// data towards the library
	if (choose(2)) {
		int n = int(choose(5));
		i64 t = 0;
		for (int i = 0; i < n; i++) {
			t += range(0, 300) * MS;
			after(t, [this, weak, my] {
				auto p = weak.lock();
				if (!p || my != sess || !p->open() || peer_fin || p->closed)
					return;
				if (shut_asked)
					quiet_peer = false;
				p->send(std::string(size_log(1, 6000), 'p'));
			});
		}
	}
	// endings from the peer's side
	if (w->shutdown_mode ? choose(4) == 0 : choose(5) == 0) {
		int how = int(choose(3));
		after(range(0, 20000) * MS, [this, weak, my, how] {
			auto p = weak.lock();
			if (!p || my != sess || !p->open() || peer_fin || p->closed)
				return;
			may_close = true;
			fin_at = now();
			busy_at_fin = busy_total;
			peer_fin = true;
			if (how == 0) {
				count_fault(F_PEER_FIN);
				p->fin();
			} else if (how == 1) {
				peer_rst = true;
				count_fault(F_PEER_RESET);
				p->reset();
			} else {
				peer_rst = true;  // whatever it did not read is lost
				p->close();
			}
		});
	}
	if (w->shutdown_mode && choose(8) == 0) {  // never stops talking
		auto talk = std::make_shared<std::function<void()>>();
		*talk = [this, weak, my, talk] {
			auto p = weak.lock();
			if (!p || my != sess || !p->open() || peer_fin || !live) {
				*talk = nullptr;
				return;
			}
			if (shut_asked)
				quiet_peer = false;
			p->send("blah");
			after(range(100, 1500) * MS, [talk] { if (*talk) { auto f = *talk; f(); } });
		};
		after(range(100, 1500) * MS, [talk] { if (*talk) { auto f = *talk; f(); } });
		PROBE("endless_peer");
	}
}
void Buf::begin(int how) {
	sess++;
	rounds--;
	key = u32(id * 1000 + sess);
	expected.clear();
	owed = 0;
	rcvd = 0;
	notices = 0;
	budget = size_log(1, 200000);
	if (cfg.sndbuf < 1000 || cfg.rcvbuf < 1000)
		budget = std::min<u64>(budget, 200 * std::min(cfg.sndbuf, cfg.rcvbuf));
	if (cfg.seg_mode && cfg.net_lat_max > 1 * MS)
		budget = std::min<u64>(budget, u64(4 * SEC / cfg.net_lat_max));
	// a window per round trip: all of it must fit into a few seconds
	budget = std::min<u64>(budget, u64(4 * SEC / (4 * cfg.net_lat_max + 1 * MS)) * std::min<size_t>(std::min(cfg.sndbuf, cfg.rcvbuf), 500));
	live = true;
	shut_asked = saw_writable = may_close = forced = false;
	wrote_after = peer_fin = peer_rst = false;
	quiet_peer = true;
	with_shutdown = w->shutdown_mode && choose(10) != 0;
	shut_at = flush_seen = fin_seen = fin_at = closed_at = 0;
	peer.reset();
	int port = 6000 + id * 100 + sess, my = sess;
	(void)how;
	if (s) {
		raw_listen(port, [this, my](RawPtr r) {
			if (my == sess && live)
				attach(r);
		});
		bool ok = s->connect(addr(port));
		if (!ok) {
			live = false;
			tm->once(0.01);
			return;
		}
		tm->once(double(range(0, 200)) / 1e3);
		if (choose(3) == 0)
			ops(1 + int(choose(5)));
	}
}
void Buf::reads() {
	if (!s->is_open())
		return;
	u8 b[2000];
	while (size_t n = s->read_some(b, 1 + choose(sizeof b))) {
		rcvd += n;
		if (!s->is_open())
			break;
	}
}
void Buf::handler() {
	ev("h", id, s->is_open(), i64(s->get_total_buffer_size()));
	SIM_CHECK(live, "call-when-closed", "socket %d: handler called after the close was reported", id);
	if (!s->is_open()) {
		notices++;
		bool timed = shut_asked;
		closed_now();
		if (!may_close && !forced && timed) {
			SIM_CHECK(flush_seen || handed() == expected.size(), "early-close", "socket %d: closed after write_shutdown with %d of %d bytes handed to the OS", id, int(handed()), int(expected.size()));
			SIM_CHECK(now() - shut_at >= 14 * SEC, "early-close", "socket %d: closed %.3f s after write_shutdown though the peer did not finish", id, (now() - shut_at) / 1e9);
			PROBE("shutdown_timeout");
		} else
			SIM_CHECK(may_close || forced, "premature-close", "socket %d: closed although the peer did nothing", id);
		if (timed && flush_seen && !forced) {
			i64 d = now() - flush_seen;
			SIM_CHECK(d <= 16 * SEC, "late-close", "socket %d: closed %.1f s after the data was flushed", id, d / 1e9);
		}
		check_peer(true);
		tm->once(double(range(0, 300)) / 1e3);
		return;
	}
	SIM_CHECK(!forced, "call-after-close", "socket %d: call with is_open() after close(true)", id);
	if (s->can_write())
		saw_writable = true;
	check_size();
	if (choose(4) == 0)
		ops(1 + int(choose(3)));
	reads();
	if (s->is_open() && choose(4) == 0)
		ops(1 + int(choose(6)));
	check_size();
}
void Buf::shutdown() {
	ev("shutdown", id, i64(s->get_total_buffer_size()), saw_writable);
	shut_asked = true;
	shut_at = now();
	owed = expected.size();
	w->shutdowns++;
	if (peer && (peer_fin || peer->sent != peer->peer_read()))
		quiet_peer = false;
	s->write_shutdown();
	if (expected.size() > handed())
		PROBE("shutdown_with_data");
	if (!saw_writable)
		PROBE("shutdown_connecting");
	if (choose(4) == 0)
		s->write_shutdown();
}
void Buf::ops(int n) {
	if (w->winding_down)
		return;
	for (int i = 0; i < n && s->is_open() && live && !forced; i++) {
		size_t k = size_t(std::min<u64>(size_log(1, 20000), budget - expected.size()));
		if (choose(10) == 0)
			k = 0;
		std::string d = pat(key, expected.size(), k);
		if (shut_asked) {
			d = std::string(k, '!');
			wrote_after = true;
		}
		u64 before = handed();
		switch (choose(7)) {
		case 0:
			if (!shut_asked) {
				expected += d;
				owed = expected.size();
			}
			s->write((const u8 *)d.data(), d.size());
			break;
		case 1: {
			if (!shut_asked) {
				expected += d;
				owed = expected.size();
			}
			std::string c = d;
			s->write(std::move(c));
			break;
		}
		case 2:
			if (!shut_asked)
				expected += d;
			s->write(d.data(), d.size(), crab::BUFFER_ONLY);
			SIM_CHECK(handed() == before, "buffer-only", "socket %d: a BUFFER_ONLY write sent %d bytes", id, int(handed() - before));
			break;
		case 3: {
			if (!shut_asked)
				expected += d;
			std::string c = d;
			s->write(std::move(c), crab::BUFFER_ONLY);
			SIM_CHECK(handed() == before, "buffer-only", "socket %d: a BUFFER_ONLY write sent %d bytes", id, int(handed() - before));
			break;
		}
		case 4: {
			std::string c = d;
			if (choose(2))
				s->buffer(d.data(), d.size());
			else
				s->buffer(std::move(c));
			if (!shut_asked)
				expected += d;
			break;
		}
		case 5: {
			size_t buffered = s->get_total_buffer_size();
			if (!d.empty()) {
				std::string was = expected;
				expected += d;  // an upper bound while the call lasts
				size_t r = s->write_some(d.data(), d.size());
				expected = was;
				SIM_CHECK(r <= d.size(), "write-overrun", "socket %d: write_some(%d) returned %d", id, int(d.size()), int(r));
				if (buffered || shut_asked)
					SIM_CHECK(r == 0, "overtake", "socket %d: write_some() sent %d bytes while %d were buffered (shutdown %d)", id, int(r), int(buffered), shut_asked);
				expected += d.substr(0, r);
				owed = std::max<u64>(owed, buffered ? 0 : expected.size());
			}
			break;
		}
		case 6:
			if (with_shutdown && !shut_asked && choose(2))
				shutdown();
			else if (choose(8) == 0 && !w->winding_down) {
				if (choose(3) == 0 && rounds > 0) {
					PROBE("reconnect_without_close");
					ev("reconnect", id);
					begin(1);
					return;
				} else if (choose(2)) {
					s->close();
					ev("close", id);
					closed_now();
					check_peer(true);
					tm->once(double(range(0, 300)) / 1e3);
				} else {
					forced = true;
					s->close(true);
					ev("close(true)", id);
					SIM_CHECK(s->get_total_buffer_size() == 0, "size", "socket %d: get_total_buffer_size() is %d after close(true)", id, int(s->get_total_buffer_size()));
					shut_asked = false;
					return;
				}
			}
			break;
		}
		if (live && s->is_open())
			check_size();
	}
}
void Buf::tick() {
	if (!live) {
		if (rounds > 0 && !w->winding_down)
			begin(0);
		return;
	}
	if (!forced && s->is_open())
		ops(1 + int(choose(4)));
	if (live && !w->winding_down)
		tm->once(double(range(0, 400)) / 1e3);
}
// what the peer has must be a beginning of what was accepted
void Buf::check_peer(bool final_) {
	if (!peer)
		return;
	const std::string &in = peer->in;
	SIM_CHECK(in.size() <= expected.size(), "extra-bytes", "socket %d: peer received %d bytes, %d were accepted (shutdown asked %d, written after %d)", id, int(in.size()), int(expected.size()), shut_asked, wrote_after);
	if (expected.compare(0, in.size(), in) != 0) {
		size_t d = diff_at(in, expected);
		fail("wrong-bytes", "socket %d: byte %d at the peer is %02x, expected %02x", id, int(d), u8(in[d]), u8(expected[d]));
	}
	if (peer->got_fin && live && !forced && !final_ && !peer->peer_closed())
		SIM_CHECK(shut_asked, "early-fin", "socket %d: peer saw end of stream, nobody asked for it", id);
}

void run_buffered(bool shutdown_mode) {
	swarm({F_EPOLL_EINTR, F_LATE_WAKE, F_EPOLL_PARTIAL, F_EPOLL_REORDER, F_EPOLL_SPURIOUS, F_SHORT_READ, F_SHORT_WRITE, F_SEND_EAGAIN, F_CONNECT_IMMEDIATE});
	random_net_config();
	if (cfg.net_lat_max > 3 * MS)
		cfg.seg_mode = 0;
	BufWorld w;
	w.shutdown_mode = shutdown_mode;
	int n = 1 + int(choose(3));
	for (int i = 0; i < n; i++) {
		w.bs.emplace_back(new Buf);
		Buf *b = w.bs.back().get();
		b->id = i;
		b->w = &w;
		b->rounds = 1 + int(choose(4));
		b->make();
	}
	i64 slow = 0;
	on_epoll_enter = [&](int, int) {
		for (auto &p : w.bs) {
			Buf &b = *p;
			if (!b.live || !b.s->is_open() || b.forced)
				continue;
			if (b.peer && b.shut_asked && b.handed() == b.expected.size() && !b.flush_seen)
				b.flush_seen = now();
			if (b.peer && b.shut_asked && b.peer->peer_shut() && !b.fin_seen) {
				b.fin_seen = now();
				SIM_CHECK(b.handed() == b.expected.size(), "early-fin", "socket %d: FIN given to the OS after %d of %d bytes", b.id, int(b.handed()), int(b.expected.size()));
			}
			if (b.flush_seen && !b.fin_seen && !b.peer_fin)
				SIM_CHECK(now() - std::max(b.flush_seen, b.shut_at) <= 2 * SEC, "no-fin", "socket %d: everything was handed to the OS %.1f s ago and write_shutdown was called %.1f s ago, but end-of-stream was not", b.id, (now() - b.flush_seen) / 1e9, (now() - b.shut_at) / 1e9);
			if (b.flush_seen)
				SIM_CHECK(now() - b.flush_seen <= 16 * SEC + slow, "late-close", "socket %d: still open %.1f s after everything was handed to the OS", b.id, (now() - b.flush_seen) / 1e9);
			// the peer finished and nothing else is in the way
			if (b.fin_seen && b.peer_fin && !b.peer_rst && b.quiet_peer && !b.wrote_after)
				SIM_CHECK(now() - std::max(b.fin_at, b.fin_seen) <= 1 * SEC, "close-missed", "socket %d: peer finished at %.3f, own end-of-stream at %.3f, still open at %.3f", b.id, b.fin_at / 1e9, b.fin_seen / 1e9, now() / 1e9);
			if (b.peer_rst && b.peer_fin)
				SIM_CHECK(now() - b.fin_at <= 17 * SEC || !b.shut_asked, "close-missed", "socket %d: peer is gone since %.3f, still open at %.3f", b.id, b.fin_at / 1e9, now() / 1e9);
			b.check_size();
		}
	};
	for (auto &b : w.bs)
		b->begin(0);
	auto done = [&] {
		for (auto &b : w.bs)
			if (b->live || b->rounds > 0)
				return false;
		return true;
	};
	run_until(w.rl, range(1, 60) * SEC, done);
	w.winding_down = true;
	stop_faults();
	for (auto &b : w.bs)
		if (b->live && b->peer && b->reading_since == INT64_MAX && b->peer->open() && !b->peer->closed) {
			b->reading_since = now();
			b->peer->set_reading(true);
		}
	for (auto &b : w.bs)
		if (b->live && b->s->is_open() && !b->forced) {
			if (b->with_shutdown && !b->shut_asked)
				b->shutdown();
			else if (!b->shut_asked && choose(2)) {
				b->s->write("x", 0);
				b->owed = b->expected.size();
			}
		}
	run_until(w.rl, shutdown_mode ? 15 * SEC : 200 * SEC, [&] {
		for (auto &b : w.bs)
			if (b->live && !b->forced && (!b->peer || (!b->peer_fin && b->peer->in.size() < b->owed)))
				return false;
		return true;
	});
	run_for(w.rl, 1 * SEC);
	for (auto &b : w.bs) {
		w.moved += b->expected.size();
		if (!b->live || !b->peer || b->peer_fin || b->forced)
			continue;
		b->check_size();
		b->check_peer(false);
		SIM_CHECK(b->peer->in.size() >= b->owed, "undelivered", "socket %d: %d bytes were written, the peer reads and has %d, %d handed to the OS, buffer size says %d", b->id, int(b->owed), int(b->peer->in.size()), int(b->handed()), int(b->s->get_total_buffer_size()));
	}
	run_for(w.rl, 24 * SEC);
	for (auto &b : w.bs)
		if (b->live && b->shut_asked && b->peer)
			fail("late-close", "socket %d: write_shutdown was called %.1f s ago, the peer reads, and the socket is still open", b->id, (now() - b->shut_at) / 1e9);
	if (shutdown_mode ? w.shutdowns > 0 : w.moved > 0)
		nontrivial();
	on_epoll_enter = nullptr;
	drop_events();
}
}  // namespace
SCENARIO(buffered) { run_buffered(false); }
SCENARIO(buffered_shutdown) { run_buffered(true); }
