// C18: a client request ends in exactly one response or one error. Scripted servers, reused ClientRequestSimple objects.
#include "http.hpp"

namespace {
namespace ch = crab::http;
struct World;
struct SC;
enum Kind { GOOD, CUT, MALFORMED, HOLD, FUZZED };
const char *kind_names[] = {"good response", "cut response", "malformed response", "no response", "mutated response"};
enum End { KEEP, FIN, RST, UNSOLICITED };
const char *end_names[] = {"kept open", "FIN", "RST", "unsolicited bytes"};
enum State { FLYING, RESPONDED, FAILED, CANCELLED };

struct Rec {
	int id = 0, cl = 0, port = 0;
	i64 sent_at = 0, done_at = 0;
	State state = FLYING;
	std::string host, start, body;
	std::vector<std::pair<std::string, std::string>> headers;  // as they must arrive
	bool req_keep = true;
	int prev = -1;  // the request whose connection may be reused
	u32 connect_faults = 0;
	SC *conn = nullptr;  // reached the server over this one
	bool dead_on_arrival = false;
	// plan
	Kind kind = GOOD;
	End end = KEEP;
	i64 think = 0, end_delay = 0, served_at = 0;
	std::string bytes;
	bool served = false;
	std::string why;  // of a malformed one
	// what the response handler must see
	int status = 0, minor = 1;
	std::string text_, rbody, date, server, mime, suffix;
	std::vector<std::pair<std::string, std::string>> rheaders;
	bool keep = true, chunked = false, has_cl = false;
};
struct SC : std::enable_shared_from_this<SC> {
	World *w = nullptr;
	RawPtr r;
	Parser p;
	size_t pos = 0;
	int port = 0, cl = -1;
	std::vector<int> ids;
	bool outstanding = false, finned = false, stubborn = false;
	bool killed = false;
	i64 killed_at = 0, last_done = 0;
	bool unsolicited = false, overtaken = false;
	~SC() {
		if (r)
			r->on_event = nullptr;
	}
	void event();
	void request(const Msg &m);
	void pieces(int id, std::string left);
	void done(int id);
	void kill() {
		if (!killed)
			killed_at = now();
		killed = true;
	}
	void finish(End e);
};
struct Cl {
	World *w = nullptr;
	int id = 0;
	std::unique_ptr<ch::ClientRequestSimple> c;
	std::unique_ptr<crab::Timer> tick;
	int cur = -1, last = -1;
	u64 serial = 0;  // changes with every operation
	void make();
	void on_response(ch::Response &&r);
	void on_error(const std::string &e);
	void send();
	void cancel();
	void act();
	void on_tick();
	void next();
};
struct World {
	crab::RunLoop rl;
	std::vector<std::unique_ptr<Cl>> cls;
	std::vector<std::unique_ptr<Rec>> recs;
	std::vector<std::shared_ptr<SC>> conns;
	bool winding_down = false, slow = false, big = false, harsh = true, fuzz = false;
	int left = 0;
	u32 key = 0, serial = 0;
	int responses = 0, errors = 0;
	bool all_done() const {
		if (left > 0)
			return false;
		for (auto &r : recs)
			if (r->state == FLYING)
				return false;
		return true;
	}
	void plan(Rec &q);
	void malformed(Rec &q);
	void holds();
};
std::string where(const Rec &q) {
	char b[300];
	snprintf(b, sizeof b, "request %d of client %d to %s:%d (plan: %s, then %s%s%s, %s)", q.id, q.cl, q.host.c_str(), q.port, kind_names[q.kind], end_names[q.end], q.why.empty() ? "" : ", ", q.why.c_str(), q.conn ? "reached the server" : "did not reach the server");
	return b;
}
u32 connect_faults() { return fault_count(F_CONNECT_REFUSED) + fault_count(F_CONNECT_TIMEOUT) + fault_count(F_CONNECT_FAIL_NOW); }

// ---------------------------------------------------------------- the responses
std::string nl() { return choose(12) ? "\r\n" : "\n"; }
std::string chunks(World &w, const std::string &body) {
	std::string o;
	size_t pos = 0, many = body.size() > 500 && choose(8) == 0 ? body.size() / (100 + choose(300)) + 1 : 0;
	while (pos < body.size()) {
		size_t n = std::min(body.size() - pos, many ? many : size_log(1, body.size()));
		char b[40];
		snprintf(b, sizeof b, choose(2) ? "%zx" : "%zX", n);
		o += (choose(8) ? "" : "00") + std::string(b);
		if (choose(8) == 0)
			o += ";" + token(w.key + w.serial++, 1 + choose(200));
		o += nl() + body.substr(pos, n) + nl();
		pos += n;
	}
	o += choose(8) ? "0" : "000";
	o += nl();
	for (u32 i = choose(8) ? 0 : choose(4); i; i--)
		o += token(w.key + w.serial++, 1 + choose(20)) + ": " + value(w.key + w.serial++, choose(100)) + "\r\n";
	return o + nl();
}
void World::plan(Rec &q) {
	q.kind = fuzz && choose(3) ? FUZZED : Kind(harsh ? weighted({10, 3, 3, 2}) : weighted({20, 1, 1, 0}));
	q.think = choose(2) ? 0 : range(0, choose(4) ? 200 : 20000) * MS;
	u32 k = key + 100000 + serial++ * 16;
	static const int st[] = {200, 201, 204, 301, 400, 404, 500, 503, 100 + 99, 599};
	q.status = st[choose(10)];
	q.minor = choose(4) ? 1 : 0;
	switch (choose(4)) {
	case 0: q.text_ = ""; break;
	case 1: q.text_ = "OK"; break;
	default: q.text_ = value(k, 1 + choose(40)); break;
	}
	int conn_header = 0;  // none, close, keep-alive
	if (!q.req_keep)
		q.keep = false;
	else
		q.keep = choose(5) != 0;
	if (q.keep != (q.minor == 1) || choose(3) == 0)
		conn_header = q.keep ? 2 : 1;
	int framing = int(weighted({4, 4, 1}));
	q.has_cl = framing == 0;
	q.chunked = framing == 1;
	size_t n = choose(6) == 0 ? 0 : size_log(1, big && choose(4) == 0 ? 200000 : slow ? 3000 : 20000);
	if (framing != 2)
		q.rbody = pat(k + 1, 0, n);
	// lines in random order
	std::vector<std::string> lines;
	auto line = [&](const std::string &name, const std::string &v) {
		std::string s = rnd_case(name);
		if (choose(10) == 0)
			s += " ";
		s += ":";
		s += choose(8) ? " " : choose(2) ? "" : " \t ";
		s += v;
		if (choose(10) == 0)
			s += choose(2) ? " " : "\t ";
		lines.push_back(s + nl());
	};
	if (framing == 0)
		line("content-length", std::to_string(n));
	if (framing == 1)
		line("transfer-encoding", rnd_case("chunked"));
	if (conn_header)
		line("connection", rnd_case(conn_header == 1 ? "close" : "keep-alive"));
	if (choose(3) == 0) {
		q.date = "Sun, 06 Nov 1994 08:49:37 GMT";
		line("date", q.date);
	}
	if (choose(3) == 0) {
		q.server = value(k + 2, 1 + choose(30));
		line("server", q.server);
	}
	if (choose(3) == 0) {
		q.mime = "text/" + token(k + 3, 1 + choose(10));
		q.suffix = choose(2) ? "charset=utf-8" : "";
		line("content-type", rnd_case(q.mime) + (q.suffix.empty() ? "" : "; " + q.suffix));
	}
	for (size_t i = lines.size(); i > 1; i--)
		std::swap(lines[i - 1], lines[choose(u32(i))]);
	std::vector<std::string> own;
	own.swap(lines);
	u32 customs = choose(3) ? choose(4) : choose(30);
	for (u32 i = 0; i < customs; i++) {
		std::string name = "x-" + token(k + 4 + i * 2, choose(20)), v = value(k + 5 + i * 2, size_log(0, customs > 4 ? 100 : 1500));
		q.rheaders.emplace_back(name, v);
		line(name, v);
	}
	std::string head = "HTTP/1." + std::to_string(q.minor) + " " + std::to_string(q.status);
	if (!q.text_.empty() || choose(2))
		head += " " + q.text_;
	head += nl();
	for (auto &s : own)
		lines.insert(lines.begin() + choose(u32(lines.size() + 1)), s);
	for (auto &s : lines)
		head += s;
	head += nl();
	q.bytes = head + (framing == 1 ? chunks(*this, q.rbody) : q.rbody);
	q.end = !q.keep ? FIN : End(harsh ? weighted({8, 2, 1, 1}) : weighted({10, 1, 0, 0}));
	q.end_delay = choose(3) ? 0 : range(0, 12000) * MS;
	if (!q.keep)
		q.end_delay = choose(2) ? 0 : range(0, 20) * SEC;
	switch (q.kind) {
	case GOOD: break;
	case CUT: {
		size_t k2 = choose(3) ? choose(u32(q.bytes.size())) : choose(3) == 0 ? 0 : choose(2) ? q.bytes.size() - 1 : choose(u32(std::min(head.size(), q.bytes.size())));
		if (choose(5) == 0) {
			u64 claim = (1ull << range(18, 63)) - choose(2);
			char b[40];
			snprintf(b, sizeof b, "%llx", (unsigned long long)claim);
			q.bytes = "HTTP/1.1 200 OK\r\n" + (choose(2) ? "content-length: " + std::to_string(claim) + "\r\n\r\n" : "transfer-encoding: chunked\r\n\r\n" + std::string(b) + "\r\n") + pat(k + 1, 0, size_log(1, 8000));
		} else
			q.bytes.resize(k2);
		q.end = choose(3) ? FIN : RST;
		PROBE("cut_response");
		break;
	}
	case MALFORMED: malformed(q); break;
	case FUZZED:
		q.bytes = mutate(key + serial, q.bytes);
		q.end = choose(4) ? FIN : RST;
		q.end_delay = choose(2) ? 0 : range(0, 6000) * MS;
		break;
	case HOLD:
		q.bytes.clear();
		q.end = choose(2) ? KEEP : choose(2) ? FIN : RST;
		q.end_delay = range(0, 40) * SEC;
		break;
	}
}
void World::malformed(Rec &q) {
	u32 k = key + 500000 + serial++ * 16;
	std::string ok = "HTTP/1.1 200 OK\r\n", rest = "content-length: 3\r\n\r\nabc", ch = "transfer-encoding: chunked\r\n\r\n";
	switch (choose(26)) {
	case 22: q.why = "endless status text", q.bytes = "HTTP/1.1 200 " + token(k, 8200 + choose(20000)); break;
	case 23: q.why = "endless header name", q.bytes = ok + "x-" + token(k, 8200 + choose(20000)); break;
	case 24: q.why = "endless version", q.bytes = "HTTP/1." + std::string(8200 + choose(20000), '1'); break;
	case 25: q.why = "endless chunk extension", q.bytes = ok + ch + "3;" + token(k, 300 + choose(20000)); break;
	case 0: q.why = "protocol name", q.bytes = "HTPP/1.1 200 OK\r\n" + rest; break;
	case 1: q.why = "major version", q.bytes = "HTTP/2.0 200 OK\r\n" + rest; break;
	case 2: q.why = "status", q.bytes = "HTTP/1.1 2x0 OK\r\n" + rest; break;
	case 3: q.why = "header without colon", q.bytes = ok + "bad header\r\n" + rest; break;
	case 4: q.why = "control character", q.bytes = ok + "x-a: b\x01" "c\r\n" + rest; break;
	case 5: q.why = "two lengths", q.bytes = ok + "content-length: 3\r\n" + rest; break;
	case 6: q.why = "bad length", q.bytes = ok + "content-length: 3a\r\n\r\nabc"; break;
	case 7: q.why = "negative length", q.bytes = ok + "content-length: -3\r\n\r\nabc"; break;
	case 8: q.why = "huge length", q.bytes = ok + "content-length: 18446744073709551616\r\n\r\nabc"; break;
	case 9: q.why = "chunk size", q.bytes = ok + ch + "zz\r\nabc"; break;
	case 10: q.why = "chunk header too long", q.bytes = ok + ch + "3;" + token(k, 300 + choose(3000)) + "\r\nabc\r\n0\r\n\r\n"; break;
	case 11: q.why = "header too long", q.bytes = ok + "x-long: " + token(k, 8300 + choose(10000)) + "\r\n" + rest; break;
	case 12: {
		q.why = "trailers too long", q.bytes = ok + ch + "3\r\nabc\r\n0\r\n";
		for (int i = 0; i < 60; i++)
			q.bytes += "x-" + token(k + u32(i), 10) + ": " + token(k + u32(i), 70) + "\r\n";
		q.bytes += "\r\n";
		break;
	}
	case 13: q.why = "connection header", q.bytes = ok + "connection: whatever\r\n" + rest; break;
	case 14: q.why = "unasked upgrade", q.bytes = "HTTP/1.1 101 Switching Protocols\r\nconnection: upgrade\r\nupgrade: websocket\r\nsec-websocket-accept: s3pPLMBiTxaQ9kYGzzhZRbK+xOo=\r\n\r\n"; break;
	case 15: q.why = "no newline after chunk", q.bytes = ok + ch + "3\r\nabcd\r\n0\r\n\r\n"; break;
	case 16: q.why = "empty header name", q.bytes = ok + ": x\r\n" + rest; break;
	case 17: q.why = "garbage", q.bytes = "G" + pat(k, 0, 1 + choose(3000)); break;
	case 18: q.why = "short status", q.bytes = "HTTP/1.1 20\r\n" + rest; break;
	case 19: q.why = "chunk size overflow", q.bytes = ok + ch + "10000000000000003\r\nabc\r\n0\r\n\r\n"; break;
	case 20: q.why = "many headers", q.bytes = ok;
		while (q.bytes.size() < 8300)
			q.bytes += "x-" + token(k + u32(q.bytes.size()), 10) + ": 1\r\n";
		q.bytes += rest;
		break;
	case 21: q.why = "carriage return alone", q.bytes = ok + "x-a: b\rc\r\n" + rest; break;
	}
	q.end = choose(2) ? KEEP : FIN;  // KEEP: waits for the client to do something
	q.end_delay = choose(2) ? 0 : range(0, 14) * SEC;
	PROBE("malformed_response");
}

// ---------------------------------------------------------------- the servers
void SC::event() {
	std::shared_ptr<SC> self = shared_from_this();
	while (pos < r->in.size()) {
		if (killed || unsolicited) {
			pos = r->in.size();
			break;
		}
		SIM_CHECK(!outstanding, "overlap", "port %d: %s arrived while request %d was not answered", port, hex(r->in.substr(pos)).c_str(), ids.empty() ? -1 : ids.back());
		bool ok = p.feed(r->in, pos);
		SIM_CHECK(ok, "request", "port %d: the request is malformed: %s", port, p.err.c_str());
		if (p.st == Parser::DONE) {
			Msg m = std::move(p.m);
			p = Parser();
			p.request = true;
			request(m);
		}
	}
	if (((r->got_fin && r->reading) || r->got_rst) && !finned && !stubborn) {
		finned = true;
		kill();
		if (!r->got_rst && !r->closed) {
			std::weak_ptr<SC> weak = self;
			after(choose(2) ? 0 : range(0, 500) * MS, [weak] {
				auto s = weak.lock();
				if (s && !s->r->closed)
					s->r->close();
			});
		}
	}
}
void SC::request(const Msg &m) {
	size_t a = m.start.find("/r");
	int id = a == std::string::npos ? -1 : atoi(m.start.c_str() + a + 2);
	SIM_CHECK(id >= 0 && id < int(w->recs.size()), "request", "port %d: unknown request %s", port, hex(m.start).c_str());
	Rec &q = *w->recs[size_t(id)];
	SIM_CHECK(!q.conn, "request-twice", "%s arrived twice", where(q).c_str());
	SIM_CHECK(q.port == port, "wrong-port", "%s arrived at port %d", where(q).c_str(), port);
	SIM_CHECK(m.start == q.start, "request", "%s arrived as %s instead of %s", where(q).c_str(), hex(m.start, 200).c_str(), hex(q.start, 200).c_str());
	auto h1 = m.headers, h2 = q.headers;
	std::sort(h1.begin(), h1.end());
	std::sort(h2.begin(), h2.end());
	if (h1 != h2) {
		std::string s1, s2;
		for (auto &h : h1)
			s1 += h.first + ": " + hex(h.second) + "; ";
		for (auto &h : h2)
			s2 += h.first + ": " + hex(h.second) + "; ";
		fail("request", "%s arrived with headers %s instead of %s", where(q).c_str(), s1.c_str(), s2.c_str());
	}
	SIM_CHECK(m.body == q.body, "request", "%s arrived with a body of %zu bytes instead of %zu", where(q).c_str(), m.body.size(), q.body.size());
	SIM_CHECK(cl < 0 || cl == q.cl, "shared", "%s arrived over a connection of client %d", where(q).c_str(), cl);
	q.conn = this;
	// reuse
	const Rec *pr = q.prev >= 0 ? w->recs[size_t(q.prev)].get() : nullptr;
	bool same = pr && pr->host == q.host && pr->port == q.port;
	i64 gap = pr ? q.sent_at - pr->done_at : 0;
	if (!ids.empty()) {
		if (pr && pr->kind == FUZZED)
			return;
		SIM_CHECK(pr && ids.back() == pr->id, "reused", "%s arrived over the connection of request %d", where(q).c_str(), ids.back());
		SIM_CHECK(same, "reused", "%s arrived over the connection of %s", where(q).c_str(), where(*pr).c_str());
		SIM_CHECK(pr->keep, "reused", "%s arrived over the connection of request %d, which the server promised to close", where(q).c_str(), pr->id);
		SIM_CHECK(gap < 12 * SEC, "reused", "%s arrived over the connection idle for %.1f s", where(q).c_str(), gap / 1e9);
		PROBE("reused");
	} else if (same && pr->keep && pr->conn && !pr->conn->killed && !pr->conn->unsolicited && gap < 9500 * MS && pr->state == RESPONDED)
		fail("not-reused", "%s arrived over a new connection, %.1f s after the previous response", where(q).c_str(), gap / 1e9);
	ids.push_back(id);
	cl = q.cl;
	outstanding = true;
	ev("request", id, i64(ids.size()));
	std::weak_ptr<SC> weak = shared_from_this();
	after(q.think, [weak, id] {
		auto s = weak.lock();
		if (s)
			s->pieces(id, s->w->recs[size_t(id)]->bytes);
	});
}
void SC::pieces(int id, std::string left) {
	if (!r->open() || killed)
		return;
	size_t n = choose(2) ? left.size() : std::min(left.size(), size_log(1, left.size() + 1));
	bool last = n == left.size();
	if (w->recs[size_t(id)]->kind == FUZZED) {
		unsolicited = true;
		killed_at = now();
	}
	if (last)  // the answer to this may come at once
		outstanding = false;
	r->send(left.substr(0, n));
	if (last)
		return done(id);
	std::weak_ptr<SC> weak = shared_from_this();
	std::string rest = left.substr(n);
	after(range(0, choose(6) ? 20 : 3000) * MS, [weak, id, rest] {
		auto s = weak.lock();
		if (s)
			s->pieces(id, rest);
	});
}
void SC::done(int id) {
	Rec &q = *w->recs[size_t(id)];
	q.served = true;
	q.served_at = now();
	if (q.kind == MALFORMED && q.end == KEEP)
		stubborn = choose(2);
	if (q.kind != GOOD)
		outstanding = true;  // nothing may follow
	std::weak_ptr<SC> weak = shared_from_this();
	size_t n = ids.size();
	if (q.end != KEEP)
		after(q.end_delay, [weak, n] {
			auto s = weak.lock();
			if (s && !s->killed && s->ids.size() == n && s->r->open())
				s->finish(s->w->recs[size_t(s->ids.back())]->end);
		});
	// an answer or an error in time, once everything is delivered
	auto poll = std::make_shared<std::function<void(i64)>>();
	World *pw = w;
	*poll = [weak, poll, id, pw](i64 since) {
		auto s = weak.lock();
		Rec &q = *pw->recs[size_t(id)];
		if (!s || q.state != FLYING || q.kind == HOLD || ((q.kind == CUT || q.kind == FUZZED) && !s->killed)) {
			if (q.state != FLYING || !s || q.kind == HOLD) {
				*poll = nullptr;
				return;
			}
			since = 0;
		}
		if (!since && s->r->unsent() == 0 && ((q.kind != CUT && q.kind != FUZZED) || s->killed))
			since = now();
		if (since && now() - since > 25 * SEC + busy_total / 4)
			fail("late", "%s: no response and no error %.1f s after the server sent everything", where(q).c_str(), (now() - since) / 1e9);
		auto pp = poll;
		after(SEC, [pp, since] {
			if (*pp) {
				auto f = *pp;
				f(since);
			}
		});
	};
	auto f = *poll;
	f(0);
}
void SC::finish(End e) {
	overtaken = r->unsent() != 0;
	kill();
	switch (e) {
	case FIN:
		count_fault(F_PEER_FIN);
		if (choose(2))
			r->fin();
		else
			r->close();
		break;
	case RST:
		count_fault(F_PEER_RESET);
		r->reset();
		break;
	case UNSOLICITED: {
		PROBE("unsolicited");
		unsolicited = true;
		switch (choose(3)) {
		case 0: r->send("HTTP/1.1 200 OK\r\ncontent-length: 5\r\n\r\nspoof"); break;
		case 1: r->send("HTTP/1.1 408 Request Timeout\r\nconnection: close\r\ncontent-length: 0\r\n\r\n"); break;
		default: r->send(pat(w->key, 0, 1 + choose(100))); break;
		}
		if (choose(2)) {
			std::weak_ptr<SC> weak = shared_from_this();
			after(range(0, 3000) * MS, [weak] {
				auto s = weak.lock();
				if (s && s->r->open())
					s->r->fin();
			});
		}
		break;
	}
	case KEEP: break;
	}
}

// ---------------------------------------------------------------- the clients
void Cl::make() {
	c.reset(new ch::ClientRequestSimple([this](ch::Response &&r) { on_response(std::move(r)); }, [this](std::string &&e) { on_error(e); }));
}
void Cl::next() {
	if (w->winding_down || w->left <= 0)
		return;
	i64 g = 0;
	switch (weighted({4, 6, 3, 3, 2, 1})) {
	case 0: g = 0; break;
	case 1: g = range(0, 300) * MS; break;
	case 2: g = range(300, 8900) * MS; break;
	case 3: g = range(9000, 11000) * MS; break;
	case 4: g = range(11, 20) * SEC; break;
	case 5: g = range(20, 40) * SEC; break;
	}
	tick->once(dur(g));
}
void Cl::on_tick() {
	if (w->winding_down)
		return;
	if (cur >= 0) {
		u32 x = choose(8);
		if (x == 0)
			cancel();
		else if (x == 1) {
			PROBE("destroyed_in_flight");
			w->recs[size_t(cur)]->state = CANCELLED;
			cur = last = -1;
			serial++;
			c.reset();
			make();
		}
		next();
		return;
	}
	act();
}
void Cl::act() {  // no request in flight
	if (w->winding_down || w->left <= 0)
		return;
	if (choose(10) == 0) {
		last = -1;
		serial++;
		PROBE("destroyed_idle");
		c.reset();  // may be in its own handler
		make();
	}
	if (choose(8) == 0 && w->cls.size() > 1) {
		Cl &o = *w->cls[choose(u32(w->cls.size()))];
		if (o.cur >= 0)
			o.cancel();
	}
	if (choose(12) == 0)
		c->cancel();  // changes nothing
	send();
	next();
}
void Cl::cancel() {
	Rec &q = *w->recs[size_t(cur)];
	PROBE("cancelled");
	q.state = CANCELLED;
	cur = last = -1;
	serial++;
	ev("cancel", q.id);
	c->cancel();
	SIM_CHECK(!c->is_open(), "is_open", "%s: is_open() after cancel()", where(q).c_str());
}
void Cl::send() {
	w->left--;
	std::unique_ptr<Rec> pq(new Rec);
	Rec &q = *pq;
	q.id = int(w->recs.size());
	q.cl = id;
	const Rec *pr = last >= 0 ? w->recs[size_t(last)].get() : nullptr;
	if (pr && choose(3)) {
		q.host = pr->host;
		q.port = pr->port;
	} else {
		static const char *hosts[] = {"h1", "h2", "slow", "bad.example"};
		q.host = hosts[weighted({8, 3, 2, 1})];
		q.port = 80 + int(weighted({8, 3, 1}));
	}
	u32 k = w->key + 1000 + w->serial++ * 64;
	ch::Request rq;
	std::string path = "/r" + std::to_string(q.id), query;
	if (choose(3) == 0)
		path += "/" + token(k, 1 + choose(40));
	if (choose(3) == 0)
		query = token(k + 1, 1 + choose(30)) + "=" + token(k + 2, choose(30));
	static const char *methods[] = {"GET", "POST", "PUT", "DELETE", "OPTIONS"};
	int variant = int(choose(3));
	std::string method = variant == 2 ? "GET" : methods[choose(5)];
	rq.header.http_version_major = 1;
	rq.header.http_version_minor = choose(8) ? 1 : 0;
	rq.header.keep_alive = q.req_keep = choose(8) != 0;
	q.headers.emplace_back("host", q.host);
	if (rq.header.http_version_minor == 1 && !q.req_keep)
		q.headers.emplace_back("connection", "close");
	if (rq.header.http_version_minor == 0 && q.req_keep)
		q.headers.emplace_back("connection", "keep-alive");
	if (choose(2)) {
		size_t n = choose(4) ? size_log(0, w->slow ? 3000 : 10000) : w->big ? size_log(1, 300000) : 0;
		q.body = pat(k + 3, 0, n);
		rq.set_body(std::string(q.body));
		q.headers.emplace_back("content-length", std::to_string(n));
	}
	for (u32 i = choose(4); i; i--) {
		std::string n = "x-" + token(k + 4 + i * 2, 1 + choose(10)), v = value(k + 5 + i * 2, 1 + choose(60));
		rq.header.headers.push_back(ch::Header{n, v});
		q.headers.emplace_back(n, hx::Parser::trim(v));
	}
	q.start = method + " " + path + (query.empty() ? "" : "?" + query) + " HTTP/1." + std::to_string(rq.header.http_version_minor);
	q.sent_at = now();
	q.prev = last;
	q.connect_faults = connect_faults();
	w->plan(q);
	cur = q.id;
	serial++;
	bool busy_before = c->is_open();
	SIM_CHECK(!busy_before, "is_open", "client %d: is_open() with no request", id);
	w->recs.push_back(std::move(pq));
	ev("send", q.id, q.port, q.kind);
	if (verbose())
		note("%s: %s", where(q).c_str(), hex(q.bytes, 150).c_str());
	if (variant == 0) {
		rq.header.method = method;
		rq.header.path = path;
		rq.header.query_string = query;
		rq.header.host = q.host;
		c->send(std::move(rq), uint16_t(q.port), "http");
	} else {
		std::string uri = "http://";
		if (choose(6) == 0) {
			std::string up = token(k + 20, 3) + ":" + token(k + 21, 1 + choose(8));
			uri += up + "@";
			q.headers.emplace_back("authorization", "basic " + b64(up));
		}
		uri += q.host;
		if (q.port != 80 || choose(2))
			uri += ":" + std::to_string(q.port);
		uri += path;
		if (!query.empty())
			uri += "?" + query;
		rq.header.method = method;
		if (variant == 1)
			c->send(uri, std::move(rq));
		else {
			rq.header.method = "";
			c->get(uri, std::move(rq));
		}
	}
	SIM_CHECK(c->is_open(), "is_open", "%s: not is_open() after send", where(q).c_str());
}
void Cl::on_response(ch::Response &&r) {
	SIM_CHECK(cur >= 0, "unexpected-response", "client %d: a response to no request (%d %s, %zu bytes)", id, r.header.status, hex(r.header.status_text).c_str(), r.body.size());
	SIM_CHECK(!c->is_open(), "is_open", "client %d: is_open() in the response handler", id);
	Rec &q = *w->recs[size_t(cur)];
	if (q.conn && q.kind == FUZZED) {
		for (auto &x : r.header.headers) {
			bool good = !x.name.empty();
			for (char c : x.name)
				good = good && u8(c) > 32 && u8(c) < 127 && !strchr("()<>@,;:\\\"/[]?={}", c) && !(c >= 'A' && c <= 'Z');
			for (char c : x.value)
				good = good && (u8(c) >= 32 || c == '\t') && c != 127;
			SIM_CHECK(good, "malformed-delivered", "%s: header %s: %s", where(q).c_str(), hex(x.name).c_str(), hex(x.value).c_str());
		}
		SIM_CHECK(r.header.status >= 0 && r.header.status <= 999, "malformed-delivered", "%s: status %d", where(q).c_str(), r.header.status);
		PROBE("mutated_response_accepted");
		ev("mutated_response", q.id, r.header.status);
		q.conn->last_done = now();
		q.state = RESPONDED;
		q.done_at = now();
		w->responses++;
		last = cur;
		cur = -1;
		serial++;
		return choose(3) ? next() : act();
	}
	if (!q.conn || q.conn->unsolicited)
		for (auto &s : w->conns)  // nobody can tell these bytes from a response when they arrive together with the request
			if (s->cl == id && s->unsolicited && std::max(s->killed_at, s->last_done) >= q.sent_at - (w->fuzz ? 10 : 1) * SEC) {
				PROBE("unsolicited_race");
				q.state = FAILED;
				q.done_at = now();
				cur = last = -1;
				serial++;
				return next();
			}
	SIM_CHECK(q.conn, "invented", "%s: response %d %s", where(q).c_str(), r.header.status, hex(r.header.status_text).c_str());
	SIM_CHECK(q.kind == GOOD, "wrong-response", "%s: response %d %s with %zu bytes", where(q).c_str(), r.header.status, hex(r.header.status_text).c_str(), r.body.size());
	SIM_CHECK(r.header.status == q.status, "status", "%s: status %d instead of %d", where(q).c_str(), r.header.status, q.status);
	SIM_CHECK(r.header.status_text == q.text_, "status", "%s: status text %s instead of %s", where(q).c_str(), hex(r.header.status_text).c_str(), hex(q.text_).c_str());
	SIM_CHECK(r.header.http_version_major == 1 && r.header.http_version_minor == q.minor, "status", "%s: version %d.%d", where(q).c_str(), r.header.http_version_major, r.header.http_version_minor);
	SIM_CHECK(r.body == q.rbody, "body", "%s: body of %zu bytes instead of %zu, differs at %zu", where(q).c_str(), r.body.size(), q.rbody.size(), diff_at(r.body, q.rbody));
	SIM_CHECK(r.header.keep_alive == q.keep, "headers", "%s: keep_alive is %d", where(q).c_str(), int(r.header.keep_alive));
	SIM_CHECK(r.header.transfer_encoding_chunked == q.chunked, "headers", "%s: chunked is %d", where(q).c_str(), int(r.header.transfer_encoding_chunked));
	SIM_CHECK(bool(r.header.content_length) == q.has_cl && (!q.has_cl || *r.header.content_length == q.rbody.size()), "headers", "%s: content_length is wrong", where(q).c_str());
	SIM_CHECK(r.header.date == q.date && r.header.server == q.server, "headers", "%s: date or server is wrong", where(q).c_str());
	SIM_CHECK(r.header.content_type_mime == q.mime && r.header.content_type_suffix == q.suffix, "headers", "%s: content type is %s;%s", where(q).c_str(), hex(r.header.content_type_mime).c_str(), hex(r.header.content_type_suffix).c_str());
	SIM_CHECK(r.header.headers.size() == q.rheaders.size(), "headers", "%s: %zu headers instead of %zu", where(q).c_str(), r.header.headers.size(), q.rheaders.size());
	for (size_t i = 0; i < q.rheaders.size(); i++)
		SIM_CHECK(r.header.headers[i].name == q.rheaders[i].first && r.header.headers[i].value == hx::Parser::trim(q.rheaders[i].second), "headers", "%s: header %s: %s instead of %s: %s", where(q).c_str(), hex(r.header.headers[i].name).c_str(), hex(r.header.headers[i].value).c_str(), q.rheaders[i].first.c_str(), hex(q.rheaders[i].second).c_str());
	ev("response", q.id, r.header.status, i64(r.body.size()));
	q.conn->last_done = now();
	q.state = RESPONDED;
	q.done_at = now();
	last = cur;
	cur = -1;
	serial++;
	w->responses++;
	u64 my = serial;
	int qid = q.id;
	World *pw = w;
	i64 b0 = busy_total;
	auto check = [this, my, qid, pw, b0](bool closed) {
		Rec &q = *pw->recs[size_t(qid)];
		if (serial != my || q.conn->killed || q.conn->unsolicited || busy_total - b0 > SEC || (!closed && !q.keep) || !q.conn->r->reading)
			return;
		if (closed)
			SIM_CHECK(q.conn->r->peer_closed(), "left-open", "%s: the idle connection is open %.1f s after the response", where(q).c_str(), (sim::now() - q.done_at) / 1e9);
		else
			SIM_CHECK(!q.conn->r->peer_closed(), "closed-early", "%s: the idle connection was closed within %.1f s", where(q).c_str(), (sim::now() - q.done_at) / 1e9);
	};
	after(9 * SEC, [check] { check(false); });
	after(14 * SEC, [check] { check(true); });
	switch (choose(3)) {
	case 0: act(); break;
	default: next(); break;
	}
}
void Cl::on_error(const std::string &e) {
	SIM_CHECK(cur >= 0, "unexpected-error", "client %d: an error for no request: %s", id, e.c_str());
	SIM_CHECK(!c->is_open(), "is_open", "client %d: is_open() in the error handler", id);
	Rec &q = *w->recs[size_t(cur)];
	bool ok = false;
	if (q.conn) {
		ok = q.kind != GOOD;
		if (q.kind == CUT || q.kind == HOLD)
			ok = q.conn->killed;
		if (q.kind == MALFORMED && !q.conn->killed && !q.conn->r->sent)
			ok = false;
		// a reset right behind the response may overtake it
		if (q.kind == GOOD && q.end == RST && q.conn->killed && (q.conn->overtaken || q.conn->killed_at - q.served_at < 3 * SEC))
			ok = true;
		if (q.kind == GOOD && q.conn->r->closed && q.served)  // close() with something unread
			ok = ok || q.conn->overtaken || q.conn->killed_at - q.served_at < 3 * SEC;
		if (q.kind == GOOD && q.conn->killed && q.conn->killed_at <= q.sent_at + 3 * SEC && !q.served)
			ok = true;
	} else {
		ok = q.host == "bad.example" || q.port == 82 || connect_faults() != q.connect_faults;
		for (auto &s : w->conns)
			if (s->cl == id && (s->killed || s->unsolicited) && std::max(s->killed_at, s->last_done) >= q.sent_at - 3 * SEC)
				ok = true;
	}
	SIM_CHECK(ok, "unjustified-error", "%s: error \"%s\" %.1f s after the request", where(q).c_str(), e.c_str(), (now() - q.sent_at) / 1e9);
	ev("error", q.id);
	q.state = FAILED;
	q.done_at = now();
	cur = last = -1;
	serial++;
	w->errors++;
	switch (choose(3)) {
	case 0: act(); break;
	default: next(); break;
	}
}
void World::holds() {
	for (auto &c : cls)
		if (c->cur >= 0 && recs[size_t(c->cur)]->kind == HOLD && recs[size_t(c->cur)]->end == KEEP)
			c->cancel();
}
}  // namespace

static void client_run(bool fuzz) {
	swarm({F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_EPOLL_PARTIAL, F_EPOLL_REORDER, F_SHORT_READ, F_SHORT_WRITE, F_SEND_EAGAIN, F_LATE_WAKE, F_RCV_WINDOW, F_CONNECT_IMMEDIATE});
	if (choose(3) == 0)
		swarm({F_CONNECT_REFUSED, F_CONNECT_TIMEOUT, F_CONNECT_FAIL_NOW});
	World w;
	w.fuzz = fuzz;
	w.slow = sane_net();
	w.big = !w.slow && cfg.seg_mode < 2 && choose(3) == 0;
	cfg.step_limit = 1500000;
	w.harsh = choose(3) != 0;
	w.key = 7000 + choose(1000000);
	cfg.dns_max = 0;
	dns_model = [](const std::string &h, int family, int port) {
		DnsAnswer a;
		(void)port;
		a.ok = h != "bad.example";
		(void)family;
		a.delay = h == "slow" ? range(0, 8000) * MS : choose(2) ? 0 : range(0, 100) * MS;
		if (a.ok) {
			a.addrs.emplace_back("127.0.0.1", 4);
			if (h == "h2")
				a.addrs.emplace_back("127.0.0.2", 4);
		}
		return a;
	};
	World *pw = &w;
	for (int port = 80; port < 82; port++)
		raw_listen(port, [pw, port](RawPtr r) {
			auto s = std::make_shared<SC>();
			s->w = pw;
			s->r = r;
			s->port = port;
			s->p.request = true;
			pw->conns.push_back(s);
			std::weak_ptr<SC> weak = s;
			r->on_event = [weak] {
				auto s = weak.lock();
				if (s)
					s->event();
			};
			if (choose(6) == 0) {
				r->set_reading(false);
				after(range(1, 3000) * MS, [weak] {
					auto s = weak.lock();
					if (s) {
						s->r->set_reading(true);
						s->event();
					}
				});
			}
			s->event();
		});
	int n = 1 + int(choose(3));
	w.left = n * (2 + int(choose(8)));
	for (int i = 0; i < n; i++) {
		std::unique_ptr<Cl> c(new Cl);
		Cl *pc = c.get();
		c->w = &w;
		c->id = i;
		c->make();
		c->tick.reset(new crab::Timer([pc] { pc->on_tick(); }));
		w.cls.push_back(std::move(c));
	}
	for (auto &c : w.cls)
		c->tick->once(dur(range(0, 100) * MS));
	run_until(w.rl, 200 * SEC, [pw] { return pw->all_done(); });
	w.winding_down = true;
	w.left = 0;
	for (auto &c : w.cls)
		c->tick->cancel();
	w.holds();
	stop_faults();
	run_until(w.rl, 300 * SEC, [pw] { return pw->all_done(); });
	for (auto &q : w.recs)
		SIM_CHECK(q->state != FLYING, "no-answer", "%s: no response and no error, %.1f s after the request", where(*q).c_str(), (now() - q->sent_at) / 1e9);
	if (choose(2))
		run_until(w.rl, 16 * SEC, [] { return false; });  // idle connections
	SIM_CHECK(max_alloc() < (4u << 20), "allocation", "%zu bytes were allocated at once", max_alloc());
	if (w.responses)
		nontrivial();
	drop_events();
	for (auto &s : w.conns)
		s->r->on_event = nullptr;
	w.cls.clear();
	w.conns.clear();
	raw_unlisten(80);
	raw_unlisten(81);
	dns_model = nullptr;
}
SCENARIO(client) { client_run(false); }
SCENARIO(client_fuzz) { client_run(true); }
