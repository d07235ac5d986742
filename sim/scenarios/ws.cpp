// WebSocket sessions: crab server with scripted clients, crab client with scripted servers, crab with crab.
// C19 messages, C20 control frames, C22 one close notification, C23 throwing handlers.
#include "http.hpp"

namespace {
namespace ch = crab::http;
struct World;
struct Link;
enum Ending { RAW_CLOSE, RAW_FIN, RAW_DROP, RAW_RESET, VIOLATION, SRV_CLOSE, CLI_CLOSE, CLI_DROP, SRV_THROW, BAD_ACCEPT, ENDINGS };
const char *ending_names[] = {"close frame of the scripted peer", "end of stream", "close", "reset", "violation", "close by the server", "close by the client", "drop by the client", "throwing handler", "bad handshake"};

// the reason of a close frame the library sends: at most 123 bytes, whole characters
std::string cut_reason(const std::string &r) {
	size_t n = r.size();
	if (n > 123)
		for (n = 123; n && (u8(r[n]) & 0xc0) == 0x80;)
			n--;
	return r.substr(0, n);
}
struct M {
	bool text = false;
	std::string body;
};
struct Dir {
	int link = 0;
	const char *name = "";
	std::vector<M> sent;
	std::deque<std::string> user_pings;
	size_t got = 0;
	bool close_sent = false, close_got = false, may_cut = false;
	int code = 0;
	std::string reason;
	void receive(bool text, const std::string &body) {
		SIM_CHECK(!close_got, "after-close", "link %d %s: a message after the close", link, name);
		SIM_CHECK(got < sent.size(), "invented", "link %d %s: a message nobody sent (%zu bytes): %s", link, name, body.size(), hex(body).c_str());
		const M &m = sent[got];
		SIM_CHECK(m.body == body, "message", "link %d %s: message %zu has %zu bytes instead of %zu, differs at %zu", link, name, got, body.size(), m.body.size(), diff_at(body, m.body));
		SIM_CHECK(m.text == text, "type", "link %d %s: message %zu has another type", link, name, got);
		got++;
		ev("message", link, i64(got), i64(body.size()));
	}
	void receive_close(int c, const std::string &r) {
		SIM_CHECK(!close_got, "close-twice", "link %d %s: a second close", link, name);
		SIM_CHECK(close_sent, "close-invented", "link %d %s: a close nobody sent, code %d %s", link, name, c, hex(r).c_str());
		SIM_CHECK(got == sent.size() || may_cut, "close-early", "link %d %s: close before message %zu of %zu", link, name, got, sent.size());
		SIM_CHECK(c == code, "close-code", "link %d %s: close code %d instead of %d", link, name, c, code);
		SIM_CHECK(r == reason, "close-reason", "link %d %s: close reason %s instead of %s", link, name, hex(r).c_str(), hex(reason).c_str());
		close_got = true;
		ev("close", link, c);
	}
	bool complete() const { return got == sent.size(); }
};
struct RawEnd : std::enable_shared_from_this<RawEnd> {
	World *w = nullptr;
	Link *l = nullptr;
	bool client = true;
	RawPtr r;
	Parser hs;
	bool up = false, ended = false, violated = false, fin_when_flushed = false, closing = false, stalled = false;
	size_t pos = 0, as_op = 0;
	std::string outq, as, key;
	std::deque<std::string> pings;
	bool flushing = false;
	i64 last_arrival = 0, last_bytes = 0;
	size_t heard = 0;
	u64 lib_pings = 0;
	u32 ping_no = 0;
	~RawEnd() {
		if (r)
			r->on_event = nullptr;
	}
	Dir &out();
	Dir &in();
	void start_client();
	void attach(RawPtr rp);
	void event();
	void consume();
	void handshake_done(Msg &m);
	void frame(Frame &f);
	void put(const std::string &s) {
		outq += s;
		if (!flushing)
			flush();
	}
	void flush();
	std::string enc(bool fin, int op, const std::string &payload, int rsv = 0);
	void message();
	void control();
	void tick();
	void violate();
	void finish_close();
};
struct SrvEnd {
	Link *l = nullptr;
	ch::Client *who = nullptr;
	bool upgraded = false, postponed = false, streaming = false, paused = false, wrote_close = false, dead = false;
	size_t pos = 0;
	int closes = 0;
	size_t throw_at = 0;  // after that many messages
	bool throw_in_close = false, threw = false;
};
struct CliEnd {
	World *w = nullptr;
	Link *l = nullptr;
	std::unique_ptr<ch::ClientConnection> conn;
	bool closed = true;
	void on_rw();
};
struct Link {
	World *w = nullptr;
	int id = 0;
	Dir c2s, s2c;
	std::shared_ptr<RawEnd> raw;
	std::unique_ptr<SrvEnd> srv;
	CliEnd *cli = nullptr;
	bool over = false;    // the planned end has begun
	bool abrupt = false;  // it begins at any time
	i64 abrupt_at = 0, over_at = 0, idle_from = 0, idle_until = 0;
	i64 paced_from = 0;  // earlier, frames wait for the client to read
	bool quiesced_end = false;
	Ending ending = RAW_CLOSE;
	int left_c2s = 0, left_s2c = 0;
	size_t max_c2s = 0, max_s2c = 0;
	u32 key = 0, serial = 0;
	std::string what;
	bool quiesced() const;
	bool finished() const;
	M make(bool from_client);
};
struct World {
	crab::RunLoop rl;
	std::unique_ptr<ch::Server> server;
	std::vector<std::unique_ptr<CliEnd>> clis;
	std::vector<std::unique_ptr<Link>> links;
	std::vector<std::shared_ptr<RawEnd>> strays;  // raw servers' connections before their request came
	std::unique_ptr<crab::Timer> driver;
	bool driver_on = true, use_srv = false, use_cli = false, crabs = false, check_ping = false, small = false;
	u32 control_weight = 1;
	std::vector<u32> endings;
	bool can_throw = false;
	size_t max_body = 150000;
	u64 messages = 0, closes = 0, throws = 0, fragmented = 0;
	int sessions_left = 0;
	~World() { drop_events(); }
	Link *new_link();
	void handle(ch::Client *who, ch::Request &&req);
	void upgrade(SrvEnd &s);
	void on_ws(SrvEnd &s, ch::WebMessage &&m);
	void act_srv(SrvEnd &s);
	void pump(SrvEnd &s);
	void act_cli(CliEnd &c);
	void on_cli_msg(CliEnd &c, ch::WebMessage &&m);
	void drive();
	void stall(Link &l);
	void begin_end(Link &l);
	void start_session(CliEnd &c);
	bool all_finished() const {
		if (sessions_left)
			return false;
		for (auto &l : links)
			if (!l->finished())
				return false;
		return true;
	}
	void srv_close(SrvEnd &s, int code, const std::string &reason);
};
Dir &RawEnd::out() { return client ? l->c2s : l->s2c; }
Dir &RawEnd::in() { return client ? l->s2c : l->c2s; }

bool Link::quiesced() const {
	if (left_c2s || left_s2c || !c2s.complete() || !s2c.complete())
		return false;
	if (srv && (srv->streaming || !srv->upgraded))
		return false;
	if (raw && (!raw->up || !raw->outq.empty() || !raw->pings.empty()))
		return false;
	return s2c.user_pings.empty() && c2s.user_pings.empty();
}
bool Link::finished() const {
	if (!over)
		return false;
	if (srv && (srv->upgraded ? srv->closes == 0 || srv->who : srv->who != nullptr))
		return false;
	if (cli && cli->l == this)
		return false;
	if (raw && !raw->ended)
		return false;
	return true;
}
M Link::make(bool from_client) {
	size_t cap = from_client ? max_c2s : max_s2c;
	M m;
	static const size_t edges[] = {0, 1, 125, 126, 127, 65535, 65536, 65537, 8192, 8188, 8184};
	size_t n = choose(3) == 0 ? edges[choose(11)] : size_log(1, std::max<size_t>(cap, 1));
	if (n > cap)
		n = cap;
	m.text = choose(2);
	u32 k = key + (++serial);
	m.body = m.text ? utf8_text(k, n) : pat(k, 0, n);
	w->messages++;
	return m;
}
// ---------------------------------------------------------------- scripted end
void RawEnd::start_client() {
	client = true;
	attach(raw_connect(80, range(0, 100) * MS * choose(2)));
}
void RawEnd::attach(RawPtr rp) {
	r = rp;
	auto self = shared_from_this();
	RawEnd *me = this;
	hs.request = !client;
	r->on_event = [me] { me->event(); };
	if (choose(4) == 0) {  // slow reader
		i64 t = 0;
		for (u32 k = 1 + choose(3); k--;) {
			t += range(0, 500) * MS;
			after(t, [self] {
				if (!self->ended)
					self->r->set_reading(false);
			});
			t += range(1, 800) * MS;
			after(t, [self] {
				if (self->stalled)
					return;
				self->r->set_reading(true);
				self->event();
			});
		}
	}
}
std::string RawEnd::enc(bool fin, int op, const std::string &payload, int rsv) {
	Frame f;
	f.fin = fin;
	f.opcode = op;
	f.rsv = rsv;
	f.payload = payload;
	f.masked = client;
	if (client)
		f.mask = choose(8) == 0 ? choose(3) * 0xff : u32(stable_random());
	return encode(f);
}
void RawEnd::flush() {
	flushing = false;
	if (outq.empty() || ended) {
		if (fin_when_flushed && !ended) {
			fin_when_flushed = false;
			auto self = shared_from_this();
			after(range(0, 1500) * MS * choose(2), [self] { self->r->fin(); });
		}
		return;
	}
	size_t n = outq.size();
	if (choose(3) == 0)
		n = size_log(1, n);
	std::string part = outq.substr(0, n);
	outq.erase(0, n);
	flushing = true;
	r->send(part);
	auto self = shared_from_this();
	if (outq.empty())
		return flush();
	after(range(0, 20) * MS, [self] { self->flush(); });
}
void RawEnd::control() {
	if (choose(3)) {
		std::string p = pat(l->key + (++ping_no) * 3, 0, choose(3) == 0 ? 125 : choose(2) ? choose(126) : 0);
		pings.push_back(p);
		put(enc(true, 9, p));
		PROBE("raw_ping");
	} else
		put(enc(true, 10, pat(ping_no, 0, choose(126))));
}
void RawEnd::message() {
	M m = l->make(client);
	out().sent.push_back(m);
	ev("raw_message", l->id, i64(m.body.size()));
	size_t frags = choose(3) == 0 ? 1 + choose(5) : 1;
	if (frags > 1) {
		PROBE("raw_fragmented");
		w->fragmented++;
	}
	size_t p = 0;
	for (size_t k = 0; k < frags; k++) {
		size_t n = k + 1 == frags ? m.body.size() - p : size_t(range(0, i64(m.body.size() - p)));
		put(enc(k + 1 == frags, k ? 0 : m.text ? 1 : 2, m.body.substr(p, n)));
		p += n;
		if (k + 1 < frags && choose(3) < w->control_weight)
			control();
	}
}
void RawEnd::tick() {
	int &left = client ? l->left_c2s : l->left_s2c;
	if (ended || closing || violated || l->over || !r->open())
		return;
	if (l->idle_from) {
		if (now() < l->idle_until && choose(4) == 0)
			control();
	} else if (up || client) {
		u32 n = 1 + choose(3);
		while (n--) {
			if (choose(6) < w->control_weight)
				control();
			if (left > 0) {
				left--;
				message();
			}
		}
	}
	auto self = shared_from_this();
	if (left > 0 || l->idle_from || choose(2))
		after(range(0, l->idle_from ? 80000 : w->small ? 300 : 40) * MS, [self] { self->tick(); });
}
void RawEnd::violate() {
	violated = true;
	int kind = int(choose(9));
	ev("violation", l->id, kind);
	std::string b = token(l->key + 77, choose(100));
	switch (kind) {
	case 0: put(enc(true, 1, b, 1 + int(choose(7)))); break;
	case 1: {
		static const int ops[] = {3, 4, 5, 6, 7, 11, 12, 13, 14, 15};
		put(enc(true, ops[choose(10)], b));
		break;
	}
	case 2: put(enc(true, 8 + int(choose(3)), std::string(126 + choose(300), 'x'))); break;
	case 3: put(enc(false, 8 + int(choose(3)), b)); break;
	case 4: put(enc(choose(2), 0, b)); break;
	case 5: put(enc(false, 1 + int(choose(2)), b) + enc(choose(2), 1 + int(choose(2)), b)); break;
	case 6:
	case 7:
	case 8: {
		static const char *bad[] = {"\x80", "\xff", "\xc0\xaf", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "\xf0\x9f\xa6", "\xc3(", "\xfe"};
		std::string t = utf8_text(l->key + 78, choose(60)) + bad[choose(9)] + (choose(2) ? utf8_text(l->key + 79, choose(60)) : std::string());
		// a truncated sequence must stay truncated: what follows starts with a letter or a lead byte
		if (kind == 6)
			put(enc(true, 1, t));
		else {
			size_t k = size_t(range(0, i64(t.size())));
			put(enc(false, 1, t.substr(0, k)) + (choose(2) ? enc(true, 9, "x") : std::string()) + enc(true, 0, t.substr(k)));
			pings.push_back("x");
		}
		break;
	}
	}
	while (choose(2))
		put(enc(true, 1 + int(choose(2)), "this must not be delivered"));
}
void RawEnd::finish_close() {
	if (ended)
		return;
	ended = true;
	r->close();
}
void RawEnd::event() {
	if (r->connect_failed)
		harness_error("raw client refused");
	if (!r->connected || ended)
		return;
	if (client && key.empty()) {
		key = b64(pat(l->key + 5, 0, 16));
		std::string h = "GET /ws" + std::to_string(l->id) + " HTTP/1.1\r\n";
		std::vector<std::string> hv = {rnd_case("host") + ": x.example", rnd_case("upgrade") + ": " + rnd_case("websocket"),
		    rnd_case("connection") + (choose(2) ? ": Upgrade" : ": keep-alive, Upgrade"), rnd_case("sec-websocket-key") + ": " + key, rnd_case("sec-websocket-version") + ": 13", "Origin: http://x.example"};
		while (!hv.empty()) {
			size_t i = choose(u32(hv.size()));
			h += hv[i] + "\r\n";
			hv.erase(hv.begin() + long(i));
		}
		put(h + "\r\n");
		if (choose(3) == 0)
			tick();  // messages together with the upgrade
	}
	if (r->in.size() != heard) {
		heard = r->in.size();
		last_bytes = now();
	}
	consume();
	if (ended)
		return;
	if ((r->got_fin && r->reading) || r->got_rst) {
		if (!l) {  // the client gave up before its upgrade request arrived
			ended = true;
			if (!r->got_rst)
				r->close();
			return;
		}
		Dir &d = in();
		if (l->over || violated || closing || !up)
			;
		else
			fail("dropped", "link %d: the connection ended (%s) although nobody asked for it; %zu of %zu and %zu of %zu messages", l->id, r->got_rst ? "reset" : "end of stream", l->c2s.got, l->c2s.sent.size(), l->s2c.got, l->s2c.sent.size());
		if (r->got_fin && d.close_sent && !violated && !closing)
			SIM_CHECK(d.close_got, "close-lost", "link %d %s: end of stream without the close frame", l->id, d.name);
		ev("raw_end", l->id, r->got_fin, r->got_rst);
		auto self = shared_from_this();
		if (r->got_rst)
			ended = true;
		else
			after(range(0, 500) * MS * choose(2), [self] { self->finish_close(); });
	}
}
void RawEnd::handshake_done(Msg &m) {
	if (client) {
		SIM_CHECK(m.status == 101, "handshake", "link %d: status %d", l->id, m.status);
		SIM_CHECK(lower(m.get("upgrade")) == "websocket" && lower(m.get("connection")).find("upgrade") != std::string::npos, "handshake", "link %d: upgrade '%s', connection '%s'", l->id, m.get("upgrade").c_str(), m.get("connection").c_str());
		SIM_CHECK(m.get("sec-websocket-accept") == ws_accept(key), "handshake", "link %d: Sec-WebSocket-Accept '%s'", l->id, m.get("sec-websocket-accept").c_str());
	} else {
		int id = 0;
		SIM_CHECK(sscanf(m.start.c_str(), "GET /ws%d HTTP/1.1", &id) == 1 && id >= 1 && id <= int(w->links.size()), "handshake", "request line '%s'", hex(m.start).c_str());
		l = w->links[size_t(id) - 1].get();
		if (l->raw && l->raw->r)
			fail("handshake", "link %d: a second connection", id);
		l->raw = shared_from_this();
		SIM_CHECK(lower(m.get("upgrade")) == "websocket" && lower(m.get("connection")) == "upgrade" && m.get("sec-websocket-version") == "13" && !m.get("host").empty(), "handshake", "link %d: headers of the upgrade request", id);
		std::string k = m.get("sec-websocket-key");
		SIM_CHECK(k.size() == 24 && k[22] == '=' && k[23] == '=', "handshake", "link %d: Sec-WebSocket-Key '%s'", id, hex(k).c_str());
		bool bad = l->ending == BAD_ACCEPT;
		std::string h = "HTTP/1.1 101 Switching Protocols\r\n";
		std::vector<std::string> hv = {rnd_case("upgrade") + ": " + rnd_case("websocket"), rnd_case("connection") + ": " + rnd_case("upgrade"), rnd_case("sec-websocket-accept") + ": " + ws_accept(bad ? k + "x" : k)};
		if (choose(2))
			hv.push_back("Server: other");
		while (!hv.empty()) {
			size_t i = choose(u32(hv.size()));
			h += hv[i] + "\r\n";
			hv.erase(hv.begin() + long(i));
		}
		if (bad) {
			violated = true;
			l->over = true;
			l->over_at = now();
		}
		put(h + "\r\n");
		if (bad) {
			put(enc(true, 1, "this must not be delivered"));
			up = true;
			return;
		}
	}
	up = true;
	ev("up", l->id);
	last_arrival = now();
	if (choose(2))
		tick();
	else {
		auto self = shared_from_this();
		after(range(0, 50) * MS, [self] { self->tick(); });
	}
}
void RawEnd::consume() {
	if (!up) {
		if (!hs.feed(r->in, pos))
			fail("handshake", "link %d: %s", l ? l->id : 0, hs.err.c_str());
		if (hs.st != Parser::DONE)
			return;
		Msg m = std::move(hs.m);
		handshake_done(m);
	}
	Frame f;
	while (!ended && decode(r->in, pos, f))
		frame(f);
}
void RawEnd::frame(Frame &f) {
	Dir &d = in();
	i64 prev = last_arrival;
	last_arrival = now();
	SIM_CHECK(!d.close_got, "after-close", "link %d %s: a frame after the close frame", l->id, d.name);
	SIM_CHECK(f.rsv == 0 && f.masked == !client, "frame", "link %d %s: reserved bits %d, masked %d", l->id, d.name, f.rsv, int(f.masked));
	if (f.opcode >= 8)
		SIM_CHECK(f.fin && f.payload.size() <= 125, "frame", "link %d %s: bad control frame (fin %d, %zu bytes)", l->id, d.name, int(f.fin), f.payload.size());
	switch (f.opcode) {
	case 9:
		if (!d.user_pings.empty() && f.payload == d.user_pings.front())
			d.user_pings.pop_front();
		else {
			SIM_CHECK(client && f.payload.empty(), "ping", "link %d %s: a ping nobody asked for: %s", l->id, d.name, hex(f.payload).c_str());
			lib_pings++;
			PROBE("keep_alive_ping");
			if (l->idle_from && prev >= l->idle_from) {
				if (prev >= l->paced_from)
					SIM_CHECK(now() - prev >= 43 * SEC, "ping-early", "link %d: keep-alive ping %.3f s after the previous frame", l->id, (now() - prev) / 1e9);
				SIM_CHECK(now() - prev <= 47 * SEC, "ping-late", "link %d: keep-alive ping %.3f s after the previous frame", l->id, (now() - prev) / 1e9);
			}
		}
		if (choose(2) && !closing && !violated)
			put(enc(true, 10, f.payload));
		break;
	case 10:
		SIM_CHECK(!pings.empty() && pings.front() == f.payload, "pong", "link %d %s: pong with %zu bytes, %zu pings are waiting for one", l->id, d.name, f.payload.size(), pings.size());
		pings.pop_front();
		break;
	case 8: {
		int code = 1005;
		std::string reason;
		SIM_CHECK(f.payload.size() != 1, "close-code", "link %d %s: close frame of one byte", l->id, d.name);
		if (f.payload.size() >= 2) {
			code = u8(f.payload[0]) * 256 + u8(f.payload[1]);
			reason = f.payload.substr(2);
		}
		if (violated && !d.close_sent) {
			SIM_CHECK(code == 1007 || code == 1002, "close-code", "link %d %s: close code %d after a violation", l->id, d.name, code);
			d.close_got = true;
		} else
			d.receive_close(code, reason);
		break;
	}
	case 1:
	case 2:
		SIM_CHECK(as_op == 0, "frame", "link %d %s: a new message inside another", l->id, d.name);
		as_op = size_t(f.opcode);
		as = f.payload;
		break;
	case 0:
		SIM_CHECK(as_op != 0, "frame", "link %d %s: stray continuation", l->id, d.name);
		as += f.payload;
		break;
	default: fail("frame", "link %d %s: opcode %d", l->id, d.name, f.opcode);
	}
	if (f.opcode < 3 && f.fin) {
		d.receive(as_op == 1, as);
		if (l->paced_from)
			l->paced_from = l->idle_until = std::max(l->idle_until, now() + 60 * SEC);
		as_op = 0;
		as.clear();
	}
}
// ---------------------------------------------------------------- crab server end
void World::handle(ch::Client *who, ch::Request &&req) {
	int id = 0;
	SIM_CHECK(sscanf(req.header.path.c_str(), "/ws%d", &id) == 1 && id >= 1 && id <= int(links.size()), "request", "path %s", hex(req.header.path).c_str());
	Link &l = *links[size_t(id) - 1];
	SIM_CHECK(req.header.is_websocket_upgrade(), "request", "link %d: not seen as an upgrade", id);
	SIM_CHECK(!l.srv, "request", "link %d: handed over twice", id);
	l.srv.reset(new SrvEnd);
	SrvEnd &s = *l.srv;
	s.l = &l;
	s.who = who;
	s.throw_at = size_t(-1);
	SrvEnd *ps = &s;
	if (choose(4) == 0) {
		s.postponed = true;
		who->postpone_response([ps] {
			SIM_CHECK(ps->postponed && ps->l->over, "notified-alive", "link %d: postponed upgrade told of a disconnect", ps->l->id);
			ps->postponed = false;
			ps->who = nullptr;
			ps->dead = true;
		});
	} else
		upgrade(s);
}
void World::upgrade(SrvEnd &s) {
	s.postponed = false;
	s.upgraded = true;
	ev("upgrade", s.l->id);
	SrvEnd *ps = &s;
	World *w = this;
	s.who->web_socket_upgrade([w, ps](ch::WebMessage &&m) { w->on_ws(*ps, std::move(m)); });
	for (u32 n = choose(3); n--;)
		act_srv(s);
}
void World::on_ws(SrvEnd &s, ch::WebMessage &&m) {
	Link &l = *s.l;
	SIM_CHECK(s.closes == 0, "close-twice", "link %d: the web socket handler is called after its close message (%s, opcode %d, code %d), end: %s", l.id, s.who ? "open" : "disconnected", int(m.opcode), m.close_code, ending_names[l.ending]);
	SIM_CHECK(m.is_close() || m.is_text() || m.is_binary(), "control-delivered", "link %d: opcode %d delivered", l.id, int(m.opcode));
	if (m.is_close()) {
		s.closes++;
		closes++;
		if (!s.who->is_open()) {
			ev("srv_disconnected", l.id, m.close_code);
			SIM_CHECK(m.close_code == (s.wrote_close ? 1000 : 1006), "close-code", "link %d: the handler got close code %d on disconnect", l.id, m.close_code);
			SIM_CHECK(l.over, "dropped", "link %d: disconnect reported although nobody ended it", l.id);
			SIM_CHECK(!s.streaming, "not-notified", "link %d: close message while the stream was not told", l.id);
			s.who = nullptr;
			s.dead = true;
			if (s.throw_in_close) {
				PROBE("throw_in_disconnect");
				throws++;
				s.threw = true;
				throw std::runtime_error(l.what);
			}
			return;
		}
		l.c2s.receive_close(m.close_code, m.body);
		// the connection stays until the peer ends it: the Client is gone only then, without another call
		ch::Client *who = s.who;
		s.who = nullptr;
		if (s.throw_in_close) {
			throws++;
			s.threw = true;
			if (!s.wrote_close) {
				l.s2c.close_sent = true;
				l.s2c.code = 1011;
				l.s2c.reason = cut_reason(l.what);
				l.s2c.may_cut = true;
			}
			s.wrote_close = true;
			throw std::runtime_error(l.what);
		}
		if (!s.wrote_close && choose(2)) {
			if (s.streaming)
				l.s2c.may_cut = true;
			s.who = who;
			srv_close(s, m.close_code == 1005 ? 1000 : m.close_code, "");
			s.who = nullptr;
		}
		return;
	}
	l.c2s.receive(m.is_text(), m.body);
	if (l.c2s.got == s.throw_at) {
		s.threw = true;
		throws++;
		if (!s.wrote_close) {
			l.s2c.close_sent = true;
			l.s2c.code = 1011;
			l.s2c.reason = cut_reason(l.what);
			l.s2c.may_cut = s.streaming;
		}
		s.wrote_close = true;
		throw std::runtime_error(l.what);
	}
	if (choose(3) == 0)
		act_srv(s);
}
void World::srv_close(SrvEnd &s, int code, const std::string &reason) {
	Link &l = *s.l;
	l.s2c.close_sent = true;
	l.s2c.code = code;
	l.s2c.reason = cut_reason(reason);
	if (s.streaming)
		l.s2c.may_cut = true;
	s.wrote_close = true;
	ev("srv_close", l.id, code);
	s.who->write(ch::WebMessage(ch::WebMessageOpcode::CLOSE, reason, uint16_t(code)));
}
void World::act_srv(SrvEnd &s) {
	Link &l = *s.l;
	if (!s.who || !s.who->is_open() || !s.upgraded || s.closes)
		return;
	if (s.wrote_close) {  // the end has been sent: nothing more may follow it
		if (!s.streaming && choose(4) == 0)
			s.who->write(ch::WebMessage(choose(2) ? ch::WebMessageOpcode::TEXT : ch::WebMessageOpcode::PING, "after close"));
		return;
	}
	if (choose(10) < control_weight && !l.over && !l.idle_from) {
		std::string p = pat(l.key + 9000 + (++l.serial), 0, choose(8) == 0 ? 126 + choose(300) : 1 + choose(125));
		if (!crabs)
			l.s2c.user_pings.push_back(p.substr(0, 125));  // the library shortens longer ones
		s.who->write(ch::WebMessage(ch::WebMessageOpcode::PING, p));
	}
	if (s.streaming) {
		if (s.paused) {
			s.paused = false;
			pump(s);
		}
		return;
	}
	if (l.over || l.left_s2c <= 0)
		return;
	if (l.raw ? false : !crabs)
		return;
	l.left_s2c--;
	M m = l.make(false);
	l.s2c.sent.push_back(m);
	if (choose(3)) {
		ev("srv_write", l.id, i64(m.body.size()));
		s.who->write(ch::WebMessage(m.text ? ch::WebMessageOpcode::TEXT : ch::WebMessageOpcode::BINARY, m.body));
		return;
	}
	ev("srv_stream", l.id, i64(m.body.size()));
	PROBE("ws_streamed");
	s.streaming = true;
	s.paused = false;
	s.pos = 0;
	SrvEnd *ps = &s;
	World *w = this;
	s.who->start_write_stream(m.text ? ch::WebMessageOpcode::TEXT : ch::WebMessageOpcode::BINARY, [w, ps] {
		World *ww = w;
		SrvEnd *q = ps;
		SIM_CHECK(q->streaming, "stream-after-end", "link %d: the stream handler is called after the message was finished", q->l->id);
		if (!q->who->is_open()) {
			q->streaming = false;
			SIM_CHECK(q->l->over, "dropped", "link %d: the stream is told of a disconnect nobody caused", q->l->id);
			return;
		}
		if (!q->paused)
			ww->pump(*q);
	});
}
void World::pump(SrvEnd &s) {
	ch::Client *who = s.who;
	Link &l = *s.l;
	const std::string body = l.s2c.sent.back().body;
	SrvEnd *ps = &s;
	int burst = 0;
	while (true) {
		SIM_CHECK(who->get_body_position() == ps->pos, "body-position", "link %d: get_body_position() is %d, %zu bytes written", l.id, int(who->get_body_position()), ps->pos);
		size_t left = body.size() - s.pos;
		if (left == 0) {
			s.streaming = false;
			who->write_last_chunk();
			return;
		}
		if (!who->can_write()) {
			PROBE("stream_waits_for_socket");
			return;
		}
		if (burst++ > 30 || choose(8) == 0) {
			s.paused = true;
			return;
		}
		size_t n = choose(3) == 0 ? left : size_log(1, left);
		if (body.size() / n > 300)
			n = std::min(left, body.size() / 100 + 1);
		std::string piece = body.substr(s.pos, n);
		s.pos += n;
		crab::BufferOptions bo = n < left && choose(4) == 0 ? crab::BUFFER_ONLY : crab::WRITE;
		if (choose(2))
			who->write(std::move(piece), bo);
		else
			who->write(piece.data(), piece.size(), bo);
	}
}
// ---------------------------------------------------------------- crab client end
void CliEnd::on_rw() {
	if (!conn->is_open()) {
		SIM_CHECK(l && !closed, "closed-twice", "client told of a disconnect again");
		ev("cli_closed", l->id);
		SIM_CHECK(l->over, "dropped", "link %d: the client is disconnected although nobody ended it; %zu of %zu and %zu of %zu messages", l->id, l->c2s.got, l->c2s.sent.size(), l->s2c.got, l->s2c.sent.size());
		closed = true;
		l = nullptr;
		return;
	}
	ch::WebMessage m;
	while (conn->read_next(m))
		w->on_cli_msg(*this, std::move(m));
}
void World::on_cli_msg(CliEnd &c, ch::WebMessage &&m) {
	SIM_CHECK(c.l, "invented", "a message on a closed client");
	Link &l = *c.l;
	SIM_CHECK(m.is_close() || m.is_text() || m.is_binary(), "control-delivered", "link %d: opcode %d delivered", l.id, int(m.opcode));
	if (m.is_close()) {
		closes++;
		l.s2c.receive_close(m.close_code, m.body);
		if (choose(2) && !l.c2s.close_sent) {
			l.c2s.close_sent = true;
			l.c2s.code = m.close_code == 1005 ? 1000 : m.close_code;
			l.c2s.reason = "";
			l.c2s.may_cut = true;
			c.conn->write(ch::WebMessage(ch::WebMessageOpcode::CLOSE, std::string(), uint16_t(l.c2s.code)));
		}
		return;
	}
	l.s2c.receive(m.is_text(), m.body);
	if (choose(3) == 0)
		act_cli(c);
}
void World::act_cli(CliEnd &c) {
	if (!c.l || c.closed || !c.conn->is_open())
		return;
	Link &l = *c.l;
	if (l.over || l.c2s.close_sent || l.ending == BAD_ACCEPT)
		return;
	if (choose(10) < control_weight && !l.idle_from) {
		std::string p = pat(l.key + 19000 + (++l.serial), 0, choose(8) == 0 ? 126 + choose(300) : 1 + choose(125));
		if (!crabs)
			l.c2s.user_pings.push_back(p.substr(0, 125));
		c.conn->write(ch::WebMessage(ch::WebMessageOpcode::PING, p));
	}
	if (l.left_c2s <= 0)
		return;
	l.left_c2s--;
	M m = l.make(true);
	l.c2s.sent.push_back(m);
	ev("cli_write", l.id, i64(m.body.size()));
	c.conn->write(ch::WebMessage(m.text ? ch::WebMessageOpcode::TEXT : ch::WebMessageOpcode::BINARY, m.body));
}
void World::start_session(CliEnd &c) {
	sessions_left--;
	Link *l = new_link();
	l->cli = &c;
	c.l = l;
	c.closed = false;
	ev("session", l->id);
	ch::RequestHeader rh;
	rh.set_uri("/ws" + std::to_string(l->id));
	bool ok = c.conn->connect(addr(crabs ? 80 : 81));
	if (!ok)
		harness_error("connect");
	c.conn->web_socket_upgrade(rh);
	if (l->ending != BAD_ACCEPT)
		for (u32 n = choose(4); n--;)
			act_cli(c);  // right after the upgrade request
}
Link *World::new_link() {
	links.emplace_back(new Link);
	Link *l = links.back().get();
	l->w = this;
	l->id = int(links.size());
	l->key = u32(l->id) * 100000;
	l->c2s.link = l->s2c.link = l->id;
	l->c2s.name = "client to server";
	l->s2c.name = "server to client";
	l->left_c2s = int(choose(9));
	l->left_s2c = int(choose(9));
	l->max_c2s = l->max_s2c = max_body;
	if (crabs) {  // two ends that both wait for the other to read would wait forever: one direction stays small
		(choose(2) ? l->max_c2s : l->max_s2c) = 500;
	}
	do {
		u32 total = 0;
		for (u32 e : endings)
			total += e;
		u32 x = choose(total);
		for (int e = 0; e < ENDINGS; e++) {
			if (x < endings[size_t(e)]) {
				l->ending = Ending(e);
				break;
			}
			x -= endings[size_t(e)];
		}
	} while (0);
	l->abrupt = choose(3) == 0 && l->ending != BAD_ACCEPT;
	l->abrupt_at = now() + range(0, small ? 3000 : 300) * MS;
	static const char *whats[] = {"", "oops", "handler failed because of something that takes some time to explain in full"};
	u32 wk = choose(5);
	l->what = wk < 3 ? whats[wk] : wk == 3 ? token(l->key + 60, 100 + choose(400)) : utf8_text(l->key + 61, 100 + choose(400));
	if (check_ping && choose(2))
		l->idle_until = range(20, 200) * SEC;
	return l;
}
void World::begin_end(Link &l) {
	l.over = true;
	l.over_at = now();
	l.quiesced_end = l.quiesced();
	l.left_c2s = l.left_s2c = 0;
	ev("end", l.id, l.ending, l.quiesced_end);
	if (l.srv && can_throw && choose(3) == 0)
		l.srv->throw_in_close = true;
	static const int codes[] = {1000, 1001, 1005, 3000, 4999, 1011};
	int code = codes[choose(6)];
	std::string reason = code == 1005 || choose(2) ? "" : utf8_text(l.key + 50, choose(124));
	if (code != 1005 && (l.ending == SRV_CLOSE || l.ending == CLI_CLOSE) && choose(6) == 0)
		reason = utf8_text(l.key + 51, 120 + choose(400));
	RawEnd *r = l.raw.get();
	switch (l.ending) {
	case RAW_CLOSE: {
		Dir &d = r->out();
		d.close_sent = true;
		d.code = code;
		d.reason = reason;
		std::string p;
		if (code != 1005) {
			p.push_back(char(code >> 8));
			p.push_back(char(code));
			p += reason;
		}
		r->closing = true;
		r->fin_when_flushed = true;
		r->put(r->enc(true, 8, p));
		break;
	}
	case RAW_FIN:
		r->closing = true;
		r->fin_when_flushed = true;
		if (!r->flushing)
			r->flush();
		break;
	case RAW_DROP:
		r->ended = true;
		r->r->close();
		break;
	case RAW_RESET:
		count_fault(F_PEER_RESET);
		r->ended = true;
		r->r->reset();
		break;
	case VIOLATION: r->violate(); break;
	case SRV_CLOSE: srv_close(*l.srv, code, reason); break;
	case CLI_CLOSE:
		l.c2s.close_sent = true;
		l.c2s.code = code;
		l.c2s.reason = cut_reason(reason);
		l.cli->conn->write(ch::WebMessage(ch::WebMessageOpcode::CLOSE, reason, uint16_t(code)));
		break;
	case CLI_DROP: {
		CliEnd *c = l.cli;
		c->closed = true;
		c->l = nullptr;
		if (sessions_left && choose(2)) {  // connecting anew closes the old connection
			start_session(*c);
		} else
			c->conn->close();
		break;
	}
	case SRV_THROW:
		l.srv->throw_at = l.c2s.sent.size() + 1;
		if (r) {
			r->message();
		} else {
			l.left_c2s = 1;
			M m = l.make(true);
			l.c2s.sent.push_back(m);
			l.cli->conn->write(ch::WebMessage(m.text ? ch::WebMessageOpcode::TEXT : ch::WebMessageOpcode::BINARY, m.body));
			l.left_c2s = 0;
		}
		break;
	default: break;
	}
}
void World::stall(Link &l) {  // the client does not read for some time, so that the output of the server waits when it is time to ping
	SrvEnd &s = *l.srv;
	size_t n = cfg.rcvbuf + cfg.sndbuf + 50 + choose(3000);
	if (!s.who || !s.who->is_open() || !s.upgraded || s.closes || s.wrote_close || s.streaming || n > (cfg.seg_mode >= 2 ? 6000 : 400000))
		return;
	PROBE("stalled_when_idle");
	auto r = l.raw;
	r->stalled = true;
	r->r->set_reading(false);
	M m = l.make(false);
	m.text = false;
	m.body = pat(l.key + 70, 0, n);
	l.s2c.sent.push_back(m);
	i64 until = range(20, 150) * SEC;
	l.paced_from = now() + until + 10 * SEC;
	l.idle_until = std::max(l.idle_until, now() + until + 60 * SEC);
	after(until, [r] {
		if (r->ended)
			return;
		r->stalled = false;
		r->r->set_reading(true);
		r->event();
	});
	ev("stall", l.id, i64(n), until / SEC);
	s.who->write(ch::WebMessage(ch::WebMessageOpcode::BINARY, m.body));
}
void World::drive() {
	for (auto &pl : links) {
		Link &l = *pl;
		if (l.srv && l.srv->postponed && choose(2))
			upgrade(*l.srv);
	}
	for (size_t i = 0; i < links.size(); i++) {
		Link &l = *links[i];
		if (l.srv && choose(2))
			act_srv(*l.srv);
		if (l.cli && l.cli->l == &l && choose(2))
			act_cli(*l.cli);
		if (l.over)
			continue;
		bool ready = true;
		switch (l.ending) {
		case SRV_CLOSE: ready = l.srv && l.srv->upgraded && l.srv->who; break;
		case SRV_THROW: ready = l.srv && l.srv->upgraded && l.srv->who && (!l.raw || l.raw->up); break;
		case CLI_CLOSE:
		case CLI_DROP: ready = l.cli && l.cli->l == &l; break;
		default: ready = l.raw && l.raw->up; break;
		}
		if (!ready)
			continue;
		if (l.abrupt && now() >= l.abrupt_at)
			begin_end(l);
		else if (l.idle_from) {
			if (now() >= l.idle_until) {
				if (l.raw && l.raw->client && l.srv)
					SIM_CHECK(now() - std::max(l.raw->last_bytes, l.idle_from) <= 47 * SEC, "ping-late", "link %d: nothing from the server for %.3f s", l.id, (now() - std::max(l.raw->last_bytes, l.idle_from)) / 1e9);
				if (l.quiesced())
					begin_end(l);
			}
		} else if (!l.abrupt && l.quiesced()) {
			if (l.idle_until) {
				l.idle_from = now();
				l.idle_until += now();
				RawEnd *r = l.raw.get();
				if (r && r->client && l.srv && choose(2))
					stall(l);
				if (r && choose(2))
					r->tick();
			} else
				begin_end(l);
		}
	}
	for (auto &c : clis)
		if (sessions_left && !c->l && choose(2))
			start_session(*c);
	if (driver_on)
		driver->once(dur(range(0, small ? 60 : 15) * MS + (choose(4) == 0 ? 300 * MS : 0)));
}
void setup(World &w) {
	w.small = sane_net() || cfg.rcvbuf < 600 || cfg.sndbuf < 600;
	w.max_body = cfg.rcvbuf < 64 || cfg.sndbuf < 64 ? 300 : w.small ? 4000 : choose(3) == 0 ? 150000 : 3000;
	if (cfg.seg_mode >= 2)
		w.max_body = std::min<size_t>(w.max_body, choose(4) == 0 ? 20000 : 3000);
	cfg.step_limit = 1500000;
	int topo = int(choose(3));
	w.use_srv = topo == 0;
	w.use_cli = topo == 1;
	w.crabs = topo == 2;
	if (w.crabs) {
		cfg.sndbuf = std::max<size_t>(cfg.sndbuf, 32768);
		cfg.rcvbuf = std::max<size_t>(cfg.rcvbuf, 32768);
	}
	auto off = [&w](std::initializer_list<Ending> es) {
		for (auto e : es)
			w.endings[size_t(e)] = 0;
	};
	if (w.use_srv)
		off({CLI_CLOSE, CLI_DROP, BAD_ACCEPT});
	else if (w.use_cli)
		off({SRV_CLOSE, SRV_THROW});
	else
		off({RAW_CLOSE, RAW_FIN, RAW_DROP, RAW_RESET, VIOLATION, BAD_ACCEPT});
	if (w.use_srv || w.crabs) {
		w.server.reset(new ch::Server(addr(80)));
		World *pw = &w;
		w.server->r_handler = [pw](ch::Client *who, ch::Request &&req) { pw->handle(who, std::move(req)); };
	}
	if (w.use_cli)
		raw_listen(81, [&w](RawPtr r) {
			auto e = std::make_shared<RawEnd>();
			e->w = &w;
			e->client = false;
			w.strays.push_back(e);
			e->attach(r);
			e->event();
		});
	World *pw = &w;
	w.driver.reset(new crab::Timer([pw] { pw->drive(); }));
	if (w.use_srv) {
		int n = 1 + int(choose(3));
		for (int i = 0; i < n; i++) {
			Link *l = w.new_link();
			l->raw = std::make_shared<RawEnd>();
			l->raw->w = &w;
			l->raw->l = l;
			l->raw->start_client();
		}
	} else {
		int n = 1 + int(choose(2));
		w.sessions_left = n * (1 + int(choose(3)));
		for (int i = 0; i < n; i++) {
			std::unique_ptr<CliEnd> c(new CliEnd);
			CliEnd *pc = c.get();
			c->w = &w;
			c->conn.reset(new ch::ClientConnection([pc] { pc->on_rw(); }));
			w.clis.push_back(std::move(c));
		}
	}
	w.driver->once(0.001);
}
void verify(World &w) {
	for (auto &pl : w.links) {
		Link &l = *pl;
		char where[200];
		snprintf(where, sizeof where, "link %d (%s, end: %s%s)", l.id, w.use_srv ? "crab server" : w.use_cli ? "crab client" : "crab both", ending_names[l.ending], l.abrupt ? ", abrupt" : "");
		if (!l.over) {
			std::string st;
			if (l.raw)
				st = l.raw->up ? " raw up" : " raw not up";
			if (l.srv)
				st += l.srv->upgraded ? " upgraded" : " not upgraded";
			fail("stalled", "%s: %zu of %zu messages to the server and %zu of %zu to the client arrived, %d and %d left to send, %zu raw and %zu/%zu user pings unanswered,%s, %zu bytes unsent by the script", where, l.c2s.got, l.c2s.sent.size(), l.s2c.got, l.s2c.sent.size(), l.left_c2s, l.left_s2c, l.raw ? l.raw->pings.size() : 0, l.c2s.user_pings.size(), l.s2c.user_pings.size(), st.c_str(), l.raw ? l.raw->outq.size() : 0);
		}
		if (!l.finished()) {
			if (l.raw && !l.raw->ended)
				fail("not-ended", "%s: the connection is still open for the scripted peer, %.1f s after its end", where, (now() - l.over_at) / 1e9);
			if (l.srv && !l.srv->closes && l.srv->upgraded)
				fail("not-notified", "%s: the web socket handler got no close message, %.1f s after the end", where, (now() - l.over_at) / 1e9);
			fail("not-ended", "%s: not finished %.1f s after its end", where, (now() - l.over_at) / 1e9);
		}
		if (l.quiesced_end) {
			if (l.ending == RAW_CLOSE)
				SIM_CHECK(l.raw->out().close_got, "close-lost", "%s: the close frame was not delivered", where);
			if (l.ending == CLI_CLOSE)
				SIM_CHECK(l.c2s.close_got, "close-lost", "%s: the client's close was not delivered", where);
			if (l.ending == SRV_CLOSE)
				SIM_CHECK(l.s2c.close_got, "close-lost", "%s: the server's close was not delivered", where);
			if (l.ending == SRV_THROW) {
				SIM_CHECK(l.srv->threw, "message-lost", "%s: the last message was not delivered", where);
				SIM_CHECK(l.s2c.close_got, "close-lost", "%s: no close frame after the handler threw", where);
			}
		}
	}
}
void run(World &w) {
	w.driver_on = true;
	run_until(w.rl, 200 * SEC, [&w] { return w.all_finished(); });
	stop_faults();
	run_until(w.rl, 400 * SEC, [&w] { return w.all_finished(); });
	verify(w);
	on_epoll_enter = nullptr;
	drop_events();
	w.driver.reset();
	w.clis.clear();
	w.server.reset();
	if (w.use_cli)
		raw_unlisten(81);
	w.links.clear();
	w.strays.clear();
}
void ws_faults() {
	swarm({F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_EPOLL_PARTIAL, F_EPOLL_REORDER, F_SHORT_READ, F_SHORT_WRITE, F_SEND_EAGAIN, F_LATE_WAKE, F_RCV_WINDOW});
}
}  // namespace

SCENARIO(ws_messages) {
	ws_faults();
	World w;
	w.endings = {3, 1, 1, 1, 0, 3, 3, 3, 0, 0};
	setup(w);
	run(w);
	if (w.messages)
		nontrivial();
}
SCENARIO(ws_control) {
	ws_faults();
	World w;
	w.control_weight = 3;
	w.check_ping = true;
	w.endings = {4, 0, 0, 0, 6, 4, 4, 0, 0, 1};
	setup(w);
	w.max_body = std::min<size_t>(w.max_body, 3000);
	run(w);
	nontrivial();
}
SCENARIO(ws_ends) {
	ws_faults();
	World w;
	w.can_throw = true;
	w.endings = {3, 3, 3, 3, 3, 3, 3, 3, 3, 1};
	setup(w);
	w.max_body = std::min<size_t>(w.max_body, 3000);
	run(w);
	if (w.closes)
		nontrivial();
}
SCENARIO(ws_throw) {
	ws_faults();
	World w;
	w.can_throw = true;
	w.endings = {3, 0, 0, 0, 0, 0, 0, 0, 6, 0};
	w.endings[RAW_CLOSE] = 3;
	setup(w);
	if (w.use_cli)  // no crab server here
		w.endings[RAW_CLOSE] = 1;
	run(w);
	if (w.throws)
		nontrivial();
}
