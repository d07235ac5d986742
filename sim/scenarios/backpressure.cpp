// C26: a peer that does not read cannot make the library read, hand over or buffer more and more.
#include "http.hpp"

namespace {
namespace ch = crab::http;
struct World;
struct Peer : std::enable_shared_from_this<Peer> {
	World *w = nullptr;
	int id = 0;
	bool web = false, server = false;  // web socket; server: the scripted end of a crab client
	RawPtr r;
	Parser p;
	size_t pos = 0;
	// requests, or messages that ask for an answer
	int total = 0, sent = 0, handed = 0, answered = 0, got = 0;
	bool upgraded = false, up = false, sending = false;
	int pings = 0, pongs = 0;
	std::string outq, as, key;
	std::vector<size_t> sizes;
	std::vector<int> modes;
	std::vector<int> order;  // answers in the order they were written
	u64 ping_bytes = 0;
	// the library's end
	ch::Client *who = nullptr;
	std::unique_ptr<ch::ClientConnection> conn;
	bool open_request = false, streaming = false, paused = false, postponed = false;
	int cur = -1;
	size_t spos = 0;
	u64 late_mark = 0;
	int blocked_cur = -1;
	int late = 0;  // handovers since output began to wait
	// watching
	i64 blocked_at = 0;
	u64 blocked_read = 0, blocked_out = 0;
	bool blocked = false, judged = false;
	~Peer() {
		if (r)
			r->on_event = nullptr;
	}
	void attach(RawPtr rp);
	void event();
	void more();
	void flush();
	void say(int k);
	void ping();
	void answer_ok(int k, const std::string &b);
	void handover(int k);
	size_t waiting() const { return server ? conn->get_total_buffer_size() : who ? ((const ch::ServerConnection *)who)->get_total_buffer_size() : 0; }
	std::string body(int k) const { return pat(u32(id) * 1000 + u32(k), 0, sizes[size_t(k)]); }
	std::string name() const { return std::string(web ? server ? "web socket client " : "web socket peer " : "peer ") + std::to_string(id); }
	bool done() const { return got == total && pongs == pings && outq.empty(); }
	void pauses();
};
enum Mode { WHOLE, CHUNKED, STREAM, STREAM_CHUNKED, LATE, MODES };
struct World {
	crab::RunLoop rl;
	std::unique_ptr<ch::Server> server;
	std::unique_ptr<crab::Timer> driver;
	std::vector<std::shared_ptr<Peer>> peers;
	size_t max_size = 20000;
	bool small = false, driver_on = true;
	u64 stalls = 0;
	void http(ch::Client *who, ch::Request &&rq);
	void message(Peer &p, ch::WebMessage &&m);
	void respond(Peer &p);
	void pump(Peer &p);
	void drive();
	void watch();
	bool all_done() const {
		for (auto &p : peers)
			if (!p->done())
				return false;
		return true;
	}
};
// ---------------------------------------------------------------- the scripted end
void Peer::attach(RawPtr rp) {
	r = rp;
	std::weak_ptr<Peer> weak = shared_from_this();
	r->on_event = [weak] {
		auto p = weak.lock();
		if (p)
			p->event();
	};
}
std::string client_frame(Peer &p, int op, const std::string &b) {
	Frame f;
	f.opcode = op;
	f.payload = b;
	f.masked = !p.server;
	f.mask = u32(p.id) * 2654435761u + u32(p.sent) * 977;
	return encode(f);
}
void Peer::say(int k) {
	std::string num = std::to_string(k);
	if (web) {
		std::string b = num + " " + pat(u32(id) * 77 + u32(k), 0, size_log(0, 300));
		outq += client_frame(*this, 2, b);
		return;
	}
	std::string b = choose(3) ? "" : pat(u32(id), 0, size_log(1, 300));
	outq += "POST /p" + std::to_string(id) + "/" + num + " HTTP/1.1\r\nhost: h\r\ncontent-length: " + std::to_string(b.size()) + "\r\n\r\n" + b;
}
void Peer::ping() {
	std::string b = "p" + std::to_string(pings);
	b += pat(u32(id) * 7 + u32(pings), 0, choose(110));
	pings++;
	ping_bytes += b.size() + 10;
	outq += client_frame(*this, 9, b);
}
void Peer::more() {
	if (!up || !r->open() || (web && !server && !upgraded && choose(2)))
		return;
	u32 burst = 1 + choose(choose(3) ? 5 : 100);
	while (burst-- && sent < total) {
		if (web && choose(4) == 0 && pings < 300)
			ping();
		say(sent);
		sent++;
	}
	if (!sending)
		flush();
}
void Peer::flush() {
	sending = false;
	if (!r->open())
		return;
	size_t n = choose(3) ? outq.size() : size_log(1, outq.size());
	if (outq.size() > 3000)
		n = std::max<size_t>(n, outq.size() / 20);
	n = std::min(n, outq.size());
	if (n) {
		r->send(outq.substr(0, n));
		outq.erase(0, n);
	}
	if (outq.empty() && sent == total)
		return;
	sending = true;
	std::weak_ptr<Peer> weak = shared_from_this();
	after(range(0, 40) * MS, [weak] {
		auto p = weak.lock();
		if (!p)
			return;
		p->sending = false;
		if (p->outq.size() < 20000)
			p->more();
		if (!p->sending)
			p->flush();
	});
}
void Peer::pauses() {
	i64 t = range(0, choose(2) ? 50 : 600) * MS;
	std::weak_ptr<Peer> weak = shared_from_this();
	for (u32 k = 1 + choose(4); k--;) {
		after(t, [weak] {
			if (auto p = weak.lock())
				p->r->set_reading(false);
		});
		t += choose(4) ? range(1, choose(2) ? 4000 : 20000) * MS : range(1, 100) * SEC;
		after(t, [weak] {
			if (auto p = weak.lock()) {
				p->r->set_reading(true);
				p->event();
			}
		});
		t += range(0, 300) * MS;
	}
}
void Peer::answer_ok(int k, const std::string &b) {
	SIM_CHECK(got < int(order.size()), "invented", "%s: an answer nobody wrote", name().c_str());
	SIM_CHECK(k == order[size_t(got)], "order", "%s: answer %d instead of %d", name().c_str(), k, order[size_t(got)]);
	std::string e = body(k);
	SIM_CHECK(b == e, "answer", "%s: answer %d has %zu bytes instead of %zu, differs at %zu", name().c_str(), k, b.size(), e.size(), diff_at(b, e));
	got++;
}
void Peer::event() {
	if (!r || !r->connected)
		return;
	if (!up && !server) {
		up = true;
		if (web) {
			key = b64(pat(u32(id) + 5, 0, 16));
			outq = "GET /w" + std::to_string(id) + " HTTP/1.1\r\nhost: h\r\nconnection: upgrade\r\nupgrade: websocket\r\nsec-websocket-key: " + key + "\r\nsec-websocket-version: 13\r\n\r\n";
		}
		more();
		if (!sending)
			flush();
	}
	if (web && !upgraded) {
		if (!p.feed(r->in, pos))
			fail("handshake", "%s: %s", name().c_str(), p.err.c_str());
		if (p.st != Parser::DONE)
			return;
		upgraded = true;
		if (server) {
			up = true;
			outq = "HTTP/1.1 101 Switching Protocols\r\nupgrade: websocket\r\nconnection: upgrade\r\nsec-websocket-accept: " + ws_accept(p.m.get("sec-websocket-key")) + "\r\n\r\n";
		} else
			SIM_CHECK(p.m.status == 101 && p.m.get("sec-websocket-accept") == ws_accept(key), "handshake", "%s: status %d", name().c_str(), p.m.status);
		more();
		if (!sending)
			flush();
	}
	if (web) {
		Frame f;
		while (decode(r->in, pos, f)) {
			SIM_CHECK(f.rsv == 0 && f.masked == server, "frame", "%s: rsv %d, masked %d", name().c_str(), f.rsv, int(f.masked));
			if (f.opcode == 10) {
				std::string e = "p" + std::to_string(pongs);
				SIM_CHECK(f.payload.compare(0, e.size(), e) == 0, "pong", "%s: pong %s, %d answered", name().c_str(), hex(f.payload).c_str(), pongs);
				pongs++;
				continue;
			}
			if (f.opcode == 9) {
				SIM_CHECK(f.payload.empty() && !server, "frame", "%s: a ping nobody sent", name().c_str());
				continue;
			}
			SIM_CHECK(f.opcode == (as.empty() && !open_request ? 2 : 0), "frame", "%s: opcode %d", name().c_str(), f.opcode);
			as += f.payload;
			open_request = !f.fin;
			if (f.fin) {
				std::string b;
				b.swap(as);
				SIM_CHECK(got < int(order.size()), "invented", "%s: a message nobody wrote", name().c_str());
				answer_ok(order[size_t(got)], b);
			}
		}
	} else
		while (pos < r->in.size()) {
			if (!p.feed(r->in, pos))
				fail("malformed", "%s: %s", name().c_str(), p.err.c_str());
			if (p.st != Parser::DONE)
				break;
			Msg m = std::move(p.m);
			p = Parser();
			SIM_CHECK(m.status == 200, "answer", "%s: status %d", name().c_str(), m.status);
			answer_ok(got, m.body);
		}
	if ((r->got_fin || r->got_rst) && r->reading)
		fail("dropped", "%s was disconnected, %d of %d answers", name().c_str(), got, total);
}
// ---------------------------------------------------------------- the user of the library
void Peer::handover(int k) {
	SIM_CHECK(k == handed && k < sent, "order", "%s: number %d handed over, %d expected, %d sent", name().c_str(), k, handed, sent);
	handed++;
	size_t wait = waiting();
	if (wait == 0)
		late = 0;
	else {
		if (r->peer_sent() >= late_mark)  // what waited at the last handover has gone
			late = 0;
		late++;
		late_mark = r->peer_sent() + wait;
	}
	ev("handed", id, k, i64(wait));
	// two messages may have been received before output began to wait: one being handed over and one after it
	SIM_CHECK(late <= (web ? 2 : 0), "handed-over", "%s: number %d handed over while %zu bytes wait for the peer (%d since they began to wait)", name().c_str(), k, wait, late);
	SIM_CHECK(!streaming && !postponed, "handed-over", "%s: number %d handed over while the answer to number %d is being written", name().c_str(), k, cur);
	// what was buffered is one answer, and what pings that had been received asked for
	size_t most = 2 * (w->max_size + 2000) + ping_bytes;
	SIM_CHECK(wait <= most, "unbounded", "%s: %zu bytes wait", name().c_str(), wait);
	cur = k;
}
void World::http(ch::Client *who, ch::Request &&rq) {
	int id = -1, k = -1;
	if (sscanf(rq.header.path.c_str(), "/p%d/%d", &id, &k) != 2 && sscanf(rq.header.path.c_str(), "/w%d", &id) != 1)
		fail("request", "path %s", hex(rq.header.path).c_str());
	Peer &p = *peers[size_t(id)];
	Peer *pp = &p;
	World *w = this;
	p.who = who;
	if (p.web) {
		who->web_socket_upgrade([w, pp](ch::WebMessage &&m) {
			if (!m.is_close())
				w->message(*pp, std::move(m));
		});
		return;
	}
	p.handover(k);
	if (p.modes[size_t(k)] == LATE) {
		p.postponed = true;
		who->postpone_response([] {});
		return;
	}
	respond(p);
}
void World::message(Peer &p, ch::WebMessage &&m) {
	int k = -1;
	SIM_CHECK(m.is_binary() && sscanf(m.body.c_str(), "%d ", &k) == 1, "message", "%s: message %s", p.name().c_str(), hex(m.body).c_str());
	p.handover(k);
	respond(p);
}
void World::respond(Peer &p) {
	int k = p.cur;
	Peer *pp = &p;
	World *w = this;
	p.postponed = false;
	p.order.push_back(k);
	int mode = p.modes[size_t(k)];
	bool stream = mode == STREAM || mode == STREAM_CHUNKED;
	if (p.server) {
		p.conn->write(ch::WebMessage(ch::WebMessageOpcode::BINARY, p.body(k)));
		return;
	}
	if (!stream) {
		if (p.web) {
			p.who->write(ch::WebMessage(ch::WebMessageOpcode::BINARY, p.body(k)));
			return;
		}
		ch::Response r;
		r.header.status = 200;
		r.header.transfer_encoding_chunked = mode == CHUNKED;
		if (mode == CHUNKED)
			r.body = p.body(k);
		else
			r.set_body(p.body(k));
		p.who->write(std::move(r));
		return;
	}
	p.streaming = true;
	p.paused = false;
	p.spos = 0;
	auto go = [w, pp] {
		World *ww = w;
		Peer *q = pp;
		if (!q->who->is_open()) {
			q->streaming = false;
			return;
		}
		SIM_CHECK(q->streaming, "stream-after-end", "%s: the stream handler is called after the end", q->name().c_str());
		if (!q->paused)
			ww->pump(*q);
	};
	if (p.web) {
		p.who->start_write_stream(ch::WebMessageOpcode::BINARY, go);
		return;
	}
	ch::ResponseHeader h;
	h.status = 200;
	if (mode == STREAM_CHUNKED)
		h.transfer_encoding_chunked = true;
	else
		h.content_length = p.sizes[size_t(k)];
	p.who->start_write_stream(h, go);
}
void World::pump(Peer &p) {
	std::string b = p.body(p.cur);
	bool cl = !p.web && p.modes[size_t(p.cur)] == STREAM;
	ch::Client *who = p.who;
	Peer *pp = &p;
	for (int burst = 0;; burst++) {
		size_t left = b.size() - pp->spos;
		if (left == 0) {
			pp->streaming = false;
			if (!cl)
				who->write_last_chunk();
			else if (b.empty())
				who->write("", 0);
			return;
		}
		if (!who->can_write()) {
			PROBE("stream_waits");
			return;
		}
		// a streaming handler that asks can_write() never buffers more than one piece
		size_t wait = pp->waiting();
		SIM_CHECK(wait <= 600, "can-write", "%s: can_write() says yes while %zu bytes wait", pp->name().c_str(), wait);
		if (burst > 30 || choose(10) == 0) {
			pp->paused = true;
			return;
		}
		size_t n = choose(3) == 0 ? left : size_log(1, left);
		if (b.size() / n > 200)
			n = std::min(left, b.size() / 60 + 1);
		std::string piece = b.substr(pp->spos, n);
		pp->spos += n;
		bool last = cl && n == left;
		if (last)
			pp->streaming = false;
		who->write(std::move(piece));
		if (last)
			return;
	}
}
void World::drive() {
	for (size_t i = 0; i < peers.size(); i++) {
		Peer &p = *peers[i];
		if (p.postponed && choose(2))
			respond(p);
		else if (p.streaming && p.paused && choose(2)) {
			p.paused = false;
			pump(p);
		}
	}
	if (driver_on)
		driver->once(dur(range(0, small ? 100 : 20) * MS + MS / 10));
}
// in epoll_wait: nothing of the library is on the stack
void World::watch() {
	for (auto &p : peers) {
		size_t wait = p->waiting();
		if ((wait == 0 && !p->streaming) || !p->r) {
			p->blocked = false;
			continue;
		}
		u64 read = p->r->peer_read();
		u64 out = p->r->peer_sent();
		if (!p->blocked || out != p->blocked_out || p->cur != p->blocked_cur) {
			p->blocked = true;
			p->blocked_out = out;
			p->blocked_cur = p->cur;
			p->judged = false;
			p->blocked_at = now();
			p->blocked_read = read;
			continue;
		}
		SIM_CHECK(read == p->blocked_read, "reads-on", "%s: the library has read %llu more bytes while its output waits for %.3f s", p->name().c_str(), (unsigned long long)(read - p->blocked_read), (now() - p->blocked_at) / 1e9);
		if (!p->judged && now() - p->blocked_at > SEC && p->handed < p->sent) {
			p->judged = true;
			stalls++;
			PROBE("stalled_with_more_to_serve");
			if (p->r->unsent() > 0)
				PROBE("stalled_both_ways");
		}
	}
}
}  // namespace

SCENARIO(backpressure) {
	swarm({F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_EPOLL_PARTIAL, F_EPOLL_REORDER, F_SHORT_READ, F_SHORT_WRITE, F_SEND_EAGAIN, F_LATE_WAKE, F_RCV_WINDOW});
	World w;
	w.small = sane_net();
	cfg.step_limit = 1500000;
	World *pw = &w;
	cfg.sndbuf = std::min<size_t>(std::max<size_t>(cfg.sndbuf, 300), size_log(300, w.small ? 1500 : 8000));
	cfg.rcvbuf = std::max<size_t>(cfg.rcvbuf, 300);
	w.max_size = w.small ? 1500 : choose(3) == 0 ? 60000 : 5000;
	if (cfg.seg_mode >= 2)
		w.max_size = std::min<size_t>(w.max_size, 2000);
	w.server.reset(new ch::Server(addr(80)));
	w.server->r_handler = [pw](ch::Client *who, ch::Request &&rq) { pw->http(who, std::move(rq)); };
	w.driver.reset(new crab::Timer([pw] { pw->drive(); }));
	int n = 1 + int(choose(3));
	for (int i = 0; i < n; i++) {
		auto p = std::make_shared<Peer>();
		p->w = pw;
		p->id = i;
		p->web = choose(2);
		p->server = p->web && choose(3) == 0;
		p->total = w.max_size > 10000 ? 1 + int(choose(20)) : 1 + int(choose(80));
		if (w.small)
			p->total = std::min(p->total, 20);
		bool heavy = choose(2);
		for (int k = 0; k < p->total; k++) {
			p->sizes.push_back(choose(8) == 0 ? 0 : size_log(heavy ? w.max_size / 4 : 1, w.max_size));
			p->modes.push_back(int(choose(MODES)));
		}
		w.peers.push_back(p);
		std::weak_ptr<Peer> weak = p;
		if (p->server) {
			p->p.request = true;
			raw_listen(100 + i, [weak, pw](RawPtr r) {
				auto p = weak.lock();
				if (!p)
					return;
				if (choose(6))
					r->set_rcvbuf(size_log(300, pw->small ? 1500 : 8000));
				p->attach(r);
				p->pauses();
				p->event();
			});
			Peer *pp = p.get();
			p->conn.reset(new ch::ClientConnection([pw, pp] {
				if (!pp->conn->is_open())
					fail("dropped", "%s is told of a disconnect", pp->name().c_str());
				ch::WebMessage m;
				while (pp->conn->read_next(m))
					pw->message(*pp, std::move(m));
			}));
		} else {
			p->attach(raw_connect(80, range(0, 50) * MS * choose(2)));
			if (choose(6))
				p->r->set_rcvbuf(size_log(300, w.small ? 1500 : 8000));
			p->pauses();
			p->event();
		}
	}
	for (auto &p : w.peers)
		if (p->server) {
			ch::RequestHeader rh;
			rh.set_uri("/ws");
			if (!p->conn->connect(addr(100 + p->id)))
				harness_error("connect");
			p->conn->web_socket_upgrade(rh);
		}
	w.driver->once(0.001);
	on_epoll_enter = [pw](int, int) { pw->watch(); };
	run_until(w.rl, 500 * SEC, [pw] { return pw->all_done(); });
	stop_faults();
	for (auto &p : w.peers)
		if (p->r) {
			p->r->set_reading(true);
			p->event();
		}
	run_until(w.rl, 300 * SEC, [pw] { return pw->all_done(); });
	for (auto &p : w.peers)
		SIM_CHECK(p->done(), "stalled", "%s: %d of %d sent, %d handed over, %d answered, %d answers and %d of %d pongs arrived; %zu bytes wait, %zu not sent by the script%s", p->name().c_str(), p->sent, p->total, p->handed, int(p->order.size()), p->got, p->pongs, p->pings, p->waiting(), p->r ? p->r->unsent() : 0, p->streaming ? ", streaming" : "");
	if (w.stalls)
		nontrivial();
	on_epoll_enter = nullptr;
	drop_events();
	for (auto &p : w.peers) {
		if (p->r)
			p->r->on_event = nullptr;
		if (p->server)
			raw_unlisten(100 + p->id);
	}
	w.driver.reset();
	w.server.reset();
	w.peers.clear();
}
