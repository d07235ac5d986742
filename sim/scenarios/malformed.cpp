// C21: malformed, oversized and truncated traffic is contained to its own connection.
#include "http.hpp"

namespace {
namespace ch = crab::http;
struct World;
enum Kind { WELL, EVIL, TRUNCATED, FLOOD, FUZZ, WS_EVIL, WS_FUZZ, KINDS };
const char *kind_names[] = {"well-behaved", "malformed", "truncated", "flooding", "mutated", "malformed web socket", "mutated web socket"};

struct Peer : std::enable_shared_from_this<Peer> {
	World *w = nullptr;
	int id = 0;
	Kind kind = WELL;
	RawPtr r;
	std::string why;
	Parser p;
	size_t pos = 0;
	std::deque<int> expected;  // requests whose responses are due, in order
	bool up = false, upgraded = false, sent_all = false, ended = false, done = false, silent = false;
	i64 ended_at = 0, ready_at = 0, flushed_at = 0, fin_at = 0, asked_at = 0;
	int rounds = 1, ws_sent = 0;
	u64 flood_limit = 0;
	std::string plan;
	int end = 0;  // after everything is sent: 0 FIN, 1 close, 2 RST, 3 waits for the library
	i64 end_delay = 0;
	~Peer() {
		if (r)
			r->on_event = nullptr;
	}
	void start(i64 delay);
	void event();
	void go();
	void pieces(std::string left);
	void flood(u32 n);
	void ask();
	void over();
	void poll();
	std::string name() const;
};
struct Ws {
	int peer = 0, got = 0, closes = 0;
};
struct Late {
	ch::Client *who = nullptr;
	int id = 0;
	i64 due = 0;
};
struct World {
	crab::RunLoop rl;
	std::unique_ptr<ch::Server> server;
	std::unique_ptr<crab::Timer> late_timer;
	std::vector<std::shared_ptr<Peer>> peers;
	std::list<Late> lates;
	std::vector<std::unique_ptr<Ws>> ws;
	u32 key = 0, serial = 0;
	int reqs = 0, hits = 0;
	bool slow = false;
	std::map<int, int> handled;
	void handler(ch::Client *who, ch::Request &&rq);
	void answer(ch::Client *who, int id);
	void on_late();
	std::string body(int id) const { return "ok " + std::to_string(id) + " " + text(key + 77 + u32(id), 0, 1 + size_t(id) * 37 % 900); }
	u32 k() { return key + 1000 + serial++ * 8; }
	bool all_done() const {
		for (auto &p : peers)
			if (!p->done)
				return false;
		return true;
	}
};
std::string Peer::name() const {
	return "peer " + std::to_string(id) + " (" + kind_names[kind] + (why.empty() ? "" : ": " + why) + ")";
}
// ---------------------------------------------------------------- requests
std::string chunks(World &w, const std::string &body) {
	std::string o;
	size_t pos = 0;
	while (pos < body.size()) {
		size_t n = std::min(body.size() - pos, size_log(1, body.size()));
		char b[40];
		snprintf(b, sizeof b, "%zx", n);
		o += b;
		if (choose(8) == 0)
			o += ";" + token(w.k(), 1 + choose(200));
		o += "\r\n" + body.substr(pos, n) + "\r\n";
		pos += n;
	}
	o += "0\r\n";
	for (u32 i = choose(6) ? 0 : choose(4); i; i--)
		o += token(w.k(), 1 + choose(20)) + ": " + value(w.k(), choose(100)) + (choose(4) ? "\r\n" : "\n");
	return o + "\r\n";
}
std::string request(World &w, const char *what, int id) {
	std::string s = choose(2) ? "GET " : "POST ";
	s += "/" + std::string(what) + "-" + std::to_string(id) + " HTTP/1.1\r\nhost: h\r\n";
	for (u32 i = choose(4); i; i--)
		s += "x-" + token(w.k(), 1 + choose(20)) + ": " + value(w.k(), size_log(0, 300)) + "\r\n";
	std::string b = pat(w.k(), 0, choose(2) ? 0 : size_log(1, w.slow ? 500 : 9000));
	switch (choose(3)) {
	case 0: return s + "\r\n";
	case 1: return s + "content-length: " + std::to_string(b.size()) + "\r\n\r\n" + b;
	default: return s + (choose(3) ? "transfer-encoding: chunked\r\n\r\n" : "transfer-encoding: gzip, chunked\r\n\r\n") + chunks(w, b);
	}
}
std::string bad_request(World &w, int id, std::string &why) {
	u32 k = w.k();
	std::string P = "/evil-" + std::to_string(id), L = "POST " + P + " HTTP/1.1\r\n", R = "host: h\r\ncontent-length: 3\r\n\r\nabc", C = "transfer-encoding: chunked\r\n\r\n", s;
	switch (choose(32)) {
	case 0: why = "method with a control character"; return "PO\x01ST " + P + " HTTP/1.1\r\n" + R;
	case 1: why = "method with a separator"; return "PO(ST " + P + " HTTP/1.1\r\n" + R;
	case 2: why = "protocol name"; return "POST " + P + " HTPP/1.1\r\n" + R;
	case 3: why = "major version 2"; return "POST " + P + " HTTP/2.0\r\n" + R;
	case 4: why = "version without minor"; return "POST " + P + " HTTP/1\r\n" + R;
	case 5: why = "control character in the path"; return "POST " + P + "\x02 HTTP/1.1\r\n" + R;
	case 6: why = "bad percent encoding"; return "POST " + P + "%zz HTTP/1.1\r\n" + R;
	case 7: why = "half percent encoding"; return "POST " + P + "%4 HTTP/1.1\r\n" + R;
	case 8: why = "header without colon"; return L + "bad header\r\n" + R;
	case 9: why = "control character in a header"; return L + "x-a: b\x01" "c\r\n" + R;
	case 10: why = "two lengths"; return L + "content-length: 3\r\n" + R;
	case 11: why = "bad length"; return L + "content-length: 3a\r\n\r\nabc";
	case 12: why = "negative length"; return L + "content-length: -3\r\n\r\nabc";
	case 13: why = "huge length"; return L + "content-length: 18446744073709551616\r\n\r\nabc";
	case 14: why = "chunk size"; return L + C + "zz\r\nabc\r\n0\r\n\r\n";
	case 15: why = "chunk header too long"; return L + C + "3;" + token(k, 300 + choose(3000)) + "\r\nabc\r\n0\r\n\r\n";
	case 16: why = "chunk size overflow"; return L + C + "10000000000000003\r\nabc\r\n0\r\n\r\n";
	case 17: why = "no newline after a chunk"; return L + C + "3\r\nabcd\r\n0\r\n\r\n";
	case 18: why = "header too long"; return L + "x-long: " + token(k, 8300 + choose(10000)) + "\r\n" + R;
	case 19: why = "path too long"; return "POST " + P + token(k, 8300 + choose(10000)) + " HTTP/1.1\r\n" + R;
	case 20:
		why = "too many headers", s = L;
		while (s.size() < 8300)
			s += "x-" + token(k + u32(s.size()), 10) + ": 1\r\n";
		return s + R;
	case 21:
		why = "trailers too long", s = L + C + "3\r\nabc\r\n0\r\n";
		for (int i = 0; i < 60; i++)
			s += "x-" + token(k + u32(i), 10) + ": " + token(k + u32(i), 70) + "\r\n";
		return s + "\r\n";
	case 22: why = "connection header"; return L + "connection: whatever\r\n" + R;
	case 23: why = "empty header name"; return L + ": x\r\n" + R;
	case 24: why = "carriage return alone"; return L + "x-a: b\rc\r\n" + R;
	case 25: why = "garbage"; return std::string(1, char(128 + choose(128))) + pat(k, 0, 1 + choose(3000));
	case 26: why = "empty method"; return "\n " + P + " HTTP/1.1\r\n" + R;
	case 27: why = "chunked is not last"; return L + "transfer-encoding: chunked, gzip\r\n\r\n3\r\nabc\r\n0\r\n\r\n";
	case 28: why = "folded first header"; return L + " x-a: b\r\n" + R;
	case 29: why = "trailer with a bad name"; return L + C + "3\r\nabc\r\n0\r\n(bad: x\r\n\r\n";
	case 30: why = "chunk size with a sign"; return L + C + "-3\r\nabc\r\n0\r\n\r\n";
	default: why = "header just above the limit"; {
		s = L + "x-long: ";
		std::string e = "\r\nhost: h\r\n\r\n";
		return s + token(k, 8193 - s.size() - e.size() + choose(3)) + e;
	}
	}
}
std::string handshake(int id) {
	return "GET /ws-" + std::to_string(id) + " HTTP/1.1\r\nhost: h\r\nconnection: upgrade\r\nupgrade: websocket\r\nsec-websocket-key: " + b64(pat(u32(id), 0, 16)) + "\r\nsec-websocket-version: 13\r\n\r\n";
}
Frame frame(World &w, int op, const std::string &payload) {
	Frame f;
	f.opcode = op;
	f.payload = payload;
	f.masked = true;
	f.mask = u32(w.k()) * 2654435761u;
	return f;
}
std::string bad_frame(World &w, std::string &why) {
	Frame f = frame(w, 2, "evil");
	std::string s;
	switch (choose(9)) {
	case 0: why = "reserved opcode", f.opcode = choose(2) ? 3 + int(choose(5)) : 11 + int(choose(5)); return encode(f);
	case 1: why = "reserved bits", f.rsv = 1 + int(choose(7)); return encode(f);
	case 2: why = "long control frame", f.opcode = 9 + int(choose(2)), f.payload = std::string(126 + choose(200), 'p'); return encode(f);
	case 3: why = "fragmented control frame", f.opcode = 8 + int(choose(3)), f.fin = false; return encode(f);
	case 4: why = "continuation of nothing", f.opcode = 0; return encode(f);
	case 5:
		why = "fragment instead of continuation", f.fin = false, s = encode(f);
		f.fin = choose(2);
		f.opcode = 1 + int(choose(2));
		return s + encode(f);
	case 6: why = "text that is not UTF-8", f.opcode = 1, f.payload = choose(2) ? "evil\xff" : "evil\xed\xa0\x80"; return encode(f);
	case 7: why = "close frame that is fragmented", f.opcode = 8, f.fin = false; return encode(f);
	default:
		why = "fragmented text that is not UTF-8", f.opcode = 1, f.fin = false, f.payload = "evil\xc3", s = encode(f);
		f.fin = true, f.opcode = 0, f.payload = "(";
		return s + encode(f);
	}
}
// ---------------------------------------------------------------- the server's user
void World::answer(ch::Client *who, int id) {
	ch::Response r;
	r.header.status = 200;
	r.set_body(body(id));
	who->write(std::move(r));
}
void World::on_late() {
	for (auto it = lates.begin(); it != lates.end();) {
		if (it->due > now()) {
			++it;
			continue;
		}
		Late l = *it;
		lates.erase(it);
		answer(l.who, l.id);
		it = lates.begin();
	}
	i64 next = INT64_MAX;
	for (auto &l : lates)
		next = std::min(next, l.due);
	if (next != INT64_MAX)
		late_timer->once(dur(std::max<i64>(next - now(), MS)));
}
void World::handler(ch::Client *who, ch::Request &&rq) {
	const ch::RequestHeader &h = rq.header;
	SIM_CHECK(h.path.find("evil") == std::string::npos, "malformed-delivered", "the handler got %s %s with %zu bytes, which was malformed, truncated or after something malformed", hex(h.method).c_str(), hex(h.path, 100).c_str(), rq.body.size());
	// whatever the mutations made of it, it has the form of a request
	bool ok = !h.method.empty() && !h.path.empty() && h.http_version_major <= 1 && h.http_version_major >= 0 && h.http_version_minor >= 0 && h.http_version_minor <= 99;
	for (char c : h.method)
		ok = ok && u8(c) > 32 && u8(c) < 127 && !strchr("()<>@,;:\\\"/[]?={}", c);
	for (auto &x : h.headers) {
		ok = ok && !x.name.empty();
		for (char c : x.name)
			ok = ok && u8(c) > 32 && u8(c) < 127 && !strchr("()<>@,;:\\\"/[]?={}", c) && !(c >= 'A' && c <= 'Z');
		for (char c : x.value)
			ok = ok && (u8(c) >= 32 || c == '\t') && c != 127;
	}
	if (!ok) {
		std::string hs;
		for (auto &x : h.headers)
			hs += x.name + ": " + x.value + "; ";
		fail("malformed-delivered", "the handler got something that is not a request: method %s path %s version %d.%d headers %s", hex(h.method).c_str(), hex(h.path).c_str(), h.http_version_major, h.http_version_minor, hex(hs, 600).c_str());
	}
	hits++;
	if (h.path.compare(0, 4, "/ws-") == 0 && h.is_websocket_upgrade()) {
		std::unique_ptr<Ws> pw(new Ws);
		Ws *s = pw.get();
		s->peer = atoi(h.path.c_str() + 4);
		ws.push_back(std::move(pw));
		who->web_socket_upgrade([this, s](ch::WebMessage &&m) {
			SIM_CHECK(!s->closes, "after-close", "peer %d: a web socket message after the close", s->peer);
			if (m.is_close()) {
				s->closes++;
				return;
			}
			SIM_CHECK(m.body.compare(0, 4, "evil") != 0, "malformed-delivered", "peer %d: the malformed web socket message was delivered: %s", s->peer, hex(m.body).c_str());
			if (m.is_text())
				SIM_CHECK(crab::is_valid_utf8(m.body), "malformed-delivered", "peer %d: text that is not UTF-8 was delivered: %s", s->peer, hex(m.body).c_str());
			s->got++;
		});
		return;
	}
	int id = -1;
	if (h.path.compare(0, 6, "/good-") == 0) {
		id = atoi(h.path.c_str() + 6);
		handled[id]++;
		SIM_CHECK(handled[id] == 1, "twice", "request %d reached the handler twice", id);
	}
	if (choose(3)) {
		answer(who, id < 0 ? 0 : id);
		return;
	}
	lates.push_back(Late{who, id < 0 ? 0 : id, now() + range(0, 2000) * MS});
	who->postpone_response([this, who] {
		for (auto it = lates.begin(); it != lates.end();)
			if (it->who == who)
				it = lates.erase(it);
			else
				++it;
	});
	late_timer->once(0.001);
}
// ---------------------------------------------------------------- peers
void Peer::start(i64 delay) {
	r = raw_connect(80, delay);
	std::weak_ptr<Peer> weak = shared_from_this();
	r->on_event = [weak] {
		auto p = weak.lock();
		if (p)
			p->event();
	};
	event();
}
void Peer::event() {
	if (r->connect_failed)
		fail("refused", "%s could not connect", name().c_str());
	if (r->connected && !up) {
		up = true;
		go();
	}
	if (kind == FUZZ || kind == WS_FUZZ) {
		pos = r->in.size();
	} else
		while (pos < r->in.size() && !expected.empty()) {
			bool ok = p.feed(r->in, pos);
			SIM_CHECK(ok, "response", "%s: the response is malformed: %s", name().c_str(), p.err.c_str());
			if (p.st != Parser::DONE)
				break;
			Msg m = std::move(p.m);
			p = Parser();
			int rid = expected.front();
			expected.pop_front();
			if (rid < 0) {
				SIM_CHECK(m.status == 101, "response", "%s: status %d instead of an upgrade", name().c_str(), m.status);
				upgraded = true;
				continue;
			}
			SIM_CHECK(m.status == 200 && m.body == w->body(rid), "response", "%s: status %d and %zu bytes in response to request %d", name().c_str(), m.status, m.body.size(), rid);
			if (kind == WELL) {
				PROBE("well_behaved_response");
				asked_at = 0;
				if (--rounds > 0) {
					std::weak_ptr<Peer> weak = shared_from_this();
					after(range(0, 1500) * MS, [weak] {
						auto p = weak.lock();
						if (p)
							p->ask();
					});
				} else if (!ended) {
					over();
					r->close();
				}
			}
		}
	if (kind == WELL && !ended && (r->got_fin || r->got_rst))
		fail("isolation", "%s was disconnected", name().c_str());
	if ((r->got_fin || r->got_rst) && !fin_at) {
		fin_at = now();
		if (!ended && !silent) {  // finishes too
			std::weak_ptr<Peer> weak = shared_from_this();
			after(range(0, 1000) * MS, [weak] {
				auto p = weak.lock();
				if (p && !p->ended) {
					p->over();
					p->r->close();
				}
			});
		}
	}
}
void Peer::over() {
	if (!ended)
		ended_at = now();
	ended = true;
}
void Peer::ask() {
	if (!r->open() || ended)
		return;
	int n = ++w->reqs;
	expected.push_back(n);
	asked_at = now();
	pieces(request(*w, "good", n));
}
void Peer::go() {
	std::weak_ptr<Peer> weak = shared_from_this();
	poll();
	if (kind == WELL)
		return ask();
	std::string s;
	bool web = kind == WS_EVIL || kind == WS_FUZZ;
	if (web) {
		s = handshake(id);
		expected.push_back(-1);
	} else if (kind != FUZZ)
		for (u32 i = choose(2) ? 0 : choose(4); i; i--) {
			int n = ++w->reqs;
			expected.push_back(n);
			s += request(*w, "good", n);
		}
	switch (kind) {
	case EVIL:
		s += bad_request(*w, id, why);
		if (choose(2))
			s += request(*w, "evil", id);
		break;
	case TRUNCATED: {
		std::string q = request(*w, "evil", id);
		if (choose(3) == 0) {
			u64 claim = (1ull << range(13, 63)) - choose(2);
			char b[40];
			snprintf(b, sizeof b, "%llx", (unsigned long long)claim);
			why = "claims " + std::to_string(claim) + " bytes";
			q = "POST /evil-" + std::to_string(id) + " HTTP/1.1\r\n";
			if (choose(2))
				q += "content-length: " + std::to_string(claim) + "\r\n\r\n";
			else
				q += "transfer-encoding: chunked\r\n\r\n" + std::string(choose(2) ? "5\r\nabcde\r\n" : "") + b + "\r\n";
			q += pat(w->k(), 0, size_log(1, 8000));
		} else {
			q.resize(choose(4) ? choose(u32(q.size())) : q.size() - 1 - choose(3));
			why = "at " + std::to_string(q.size());
		}
		s += q;
		break;
	}
	case FLOOD: {
		std::string L = "POST /evil-" + std::to_string(id) + " HTTP/1.1\r\n";
		u32 what = choose(9);
		static const char *names[] = {"method", "path", "query", "header name", "header value", "blank lines", "headers", "chunk extension", "trailers"};
		why = names[what];
		static const char *starts[] = {"P", "POST /evil", "POST /evil?", "", "x-a: ", "", "", "3;", "3\r\nabc\r\n0\r\n"};
		if (what == 3 || what == 4 || what == 6)
			s += L;
		if (what >= 7)
			s += L + "transfer-encoding: chunked\r\n\r\n";
		s += starts[what];
		flood_limit = s.size() + 8192 + 8192 + 4096;
		plan = what == 5 ? "\r\n" : what == 6 || what == 8 ? "x-y: z\r\n" : "a";
		break;
	}
	case FUZZ: {
		std::string q;
		for (u32 i = 1 + choose(3); i; i--)
			q += request(*w, "fuzz", id);
		if (choose(6) == 0)
			q += handshake(id);
		s = mutate(w->k(), q);
		break;
	}
	case WS_EVIL:
	case WS_FUZZ: {
		std::string q;
		for (u32 i = choose(4); i; i--) {
			q += encode(frame(*w, choose(2) ? 1 : 2, text(w->k(), 0, size_log(1, 2000))));
			ws_sent++;
		}
		if (kind == WS_EVIL) {
			q += bad_frame(*w, why);
			q += encode(frame(*w, 2, "evil after"));
		} else {
			if (choose(2)) {
				Frame f = frame(*w, 1, utf8_text(w->k(), size_log(1, 300)));
				f.fin = false;
				q += encode(f);
				q += encode(frame(*w, 9, "ping"));
				f.fin = true;
				f.opcode = 0;
				q += encode(f);
			}
			if (choose(3) == 0)
				q += encode(frame(*w, 8, "\x03\xe8" "bye"));
			q = mutate(w->k(), q);
			if (choose(3) == 0) {  // a frame that claims to be huge
				std::string f = encode(frame(*w, choose(2) ? 1 : 2, ""));
				u64 claim = (1ull << range(16, 63)) - choose(2);
				f.resize(2);
				f[1] = char(0x80 | 127);
				for (int b = 56; b >= 0; b -= 8)
					f.push_back(char(claim >> b));
				q = (choose(2) ? q : std::string()) + f + "mask" + pat(w->k(), 0, size_log(1, 8000));
			}
		}
		s += q;
		break;
	}
	default: break;
	}
	end = int(choose(4));
	if (kind == FUZZ || kind == WS_FUZZ || kind == TRUNCATED)
		end = int(choose(3));
	end_delay = choose(2) ? 0 : range(0, 5000) * MS;
	silent = choose(4) == 0;
	pieces(s);
}
void Peer::pieces(std::string left) {
	if (!r->open() || ended)
		return;
	size_t n = choose(2) ? left.size() : std::min(left.size(), size_log(1, left.size() + 1));
	r->send(left.substr(0, n));
	std::weak_ptr<Peer> weak = shared_from_this();
	if (n < left.size()) {
		std::string rest = left.substr(n);
		after(range(0, 30) * MS, [weak, rest] {
			auto p = weak.lock();
			if (p)
				p->pieces(rest);
		});
		return;
	}
	if (kind == WELL)
		return;
	if (kind == FLOOD)
		return flood(0);
	sent_all = true;
	if (end == 3)
		return;
	after(end_delay, [weak] {
		auto p = weak.lock();
		if (!p || p->ended)
			return;
		if (p->kind != FUZZ && p->kind != WS_FUZZ && !p->expected.empty() && p->end) {  // wants its responses first
			p->end = 3;
			if (p->kind == TRUNCATED)
				p->end = 0;
			else
				return;
		}
		if (p->kind == TRUNCATED && !p->expected.empty()) {  // half-close is a disconnect
			auto again = std::make_shared<std::function<void()>>();
			*again = [weak, again] {
				auto p = weak.lock();
				if (!p || p->ended) {
					*again = nullptr;
					return;
				}
				if (p->expected.empty()) {
					p->over();
					p->r->fin();
					*again = nullptr;
					return;
				}
				auto a = again;
				after(200 * MS, [a] {
					if (*a) {
						auto f = *a;
						f();
					}
				});
			};
			auto f = *again;
			f();
			return;
		}
		if (p->kind != FUZZ && p->kind != WS_FUZZ && !p->expected.empty())
			return;  // waits for the library
		p->over();
		if (p->end == 0) {
			count_fault(F_PEER_FIN);
			p->r->fin();
		} else if (p->end == 1)
			p->r->close();
		else {
			count_fault(F_PEER_RESET);
			p->r->reset();
		}
	});
}
void Peer::flood(u32 n) {
	if (!r->open() || ended)
		return;
	if (n > 400) {  // enough
		sent_all = true;
		return;
	}
	if (r->unsent() < 100000) {
		size_t len = 1 + choose(3000);
		std::string s;
		while (s.size() < len)
			s += plan;
		if (plan.size() == 1)
			s = std::string(len, plan[0]);
		r->send(s);
	}
	std::weak_ptr<Peer> weak = shared_from_this();
	after(range(0, 40) * MS + MS, [weak, n] {
		auto p = weak.lock();
		if (p)
			p->flood(n + 1);
	});
}
void Peer::poll() {
	std::weak_ptr<Peer> weak = shared_from_this();
	const i64 slack = 3 * SEC + busy_total / 4;
	if (kind == WELL) {
		if (asked_at && now() - asked_at > 25 * SEC + slack)
			fail("isolation", "%s: no response for %.1f s", name().c_str(), (now() - asked_at) / 1e9);
	}
	if (r->peer_closed()) {
		if (kind == EVIL || kind == WS_EVIL || (kind == TRUNCATED && end == 0))
			SIM_CHECK(expected.empty() || !r->open() || r->in.size() > pos || r->unsent() || now() < 0 || ended, "lost-responses", "%s: %zu responses missing when closed", name().c_str(), expected.size());
		done = true;
		return;
	}
	if (ended) {
		if (!flushed_at && r->unsent() == 0)
			flushed_at = now();
		// responses may be postponed one after another before the end is noticed
		if (flushed_at && now() - flushed_at > 30 * SEC + slack)
			fail("not-closed", "%s: the connection is open %.1f s after the peer ended it", name().c_str(), (now() - ended_at) / 1e9);
	} else if (kind == FLOOD) {
		if (r->peer_read() > flood_limit + u64(8192) * w->peers.size() * 0 && !ready_at && expected.empty())
			ready_at = now();
		if (ready_at && now() - ready_at > slack && !r->peer_shut())
			fail("unbounded", "%s: the library has read %llu bytes and still listens", name().c_str(), (unsigned long long)r->peer_read());
		if (ready_at && now() - ready_at > 20 * SEC + slack)
			fail("not-closed", "%s: the connection is open %.1f s after %llu bytes", name().c_str(), (now() - ready_at) / 1e9, (unsigned long long)r->peer_read());
	} else if ((kind == EVIL || kind == WS_EVIL) && sent_all) {
		if (!ready_at && r->unsent() == 0 && expected.empty())
			ready_at = now();
		if (!ready_at && r->peer_shut() && !expected.empty() && !r->unsent() && (r->got_fin || r->got_rst))
			fail("lost-responses", "%s: %zu responses missing at the end of the stream", name().c_str(), expected.size());
		if (ready_at && now() - ready_at > slack && !r->peer_shut())
			fail("not-closed", "%s: the library still talks %.1f s later", name().c_str(), (now() - ready_at) / 1e9);
		if (ready_at && now() - ready_at > 20 * SEC + slack)
			fail("not-closed", "%s: the connection is open %.1f s later", name().c_str(), (now() - ready_at) / 1e9);
	}
	after(250 * MS, [weak] {
		auto p = weak.lock();
		if (p)
			p->poll();
	});
}
}  // namespace

SCENARIO(malformed) {
	swarm({F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_EPOLL_PARTIAL, F_EPOLL_REORDER, F_SHORT_READ, F_SHORT_WRITE, F_SEND_EAGAIN, F_LATE_WAKE, F_RCV_WINDOW});
	World w;
	w.slow = sane_net();
	cfg.step_limit = 1500000;
	w.key = 9000 + choose(1000000);
	World *pw = &w;
	w.server.reset(new ch::Server(80));
	w.server->r_handler = [pw](ch::Client *who, ch::Request &&rq) { pw->handler(who, std::move(rq)); };
	w.late_timer.reset(new crab::Timer([pw] { pw->on_late(); }));
	int n = 2 + int(choose(7));
	for (int i = 0; i < n; i++) {
		auto p = std::make_shared<Peer>();
		p->w = pw;
		p->id = i;
		p->kind = i == 0 ? WELL : Kind(weighted({3, 8, 4, 2, 6, 4, 4}));
		p->rounds = 1 + int(choose(10));
		w.peers.push_back(p);
	}
	for (auto &p : w.peers)
		p->start(range(0, 3000) * MS);
	run_until(w.rl, 200 * SEC, [pw] { return pw->all_done(); });
	stop_faults();
	run_until(w.rl, 200 * SEC, [pw] { return pw->all_done(); });
	for (auto &p : w.peers)
		SIM_CHECK(p->done, "not-closed", "%s is not finished", p->name().c_str());
	run_for(w.rl, 3 * SEC);
	SIM_CHECK(established_count(80) == 0, "not-closed", "%d connections are left", established_count(80));
	for (auto &s : w.ws) {
		const Peer &p = *w.peers[size_t(s->peer) % w.peers.size()];
		SIM_CHECK(s->closes == 1, "ws-close", "peer %d: the web socket handler got %d close messages", s->peer, s->closes);
		if (p.kind == WS_EVIL)
			SIM_CHECK(s->got == p.ws_sent || p.end != 3, "ws-lost", "%s: %d of %d messages before the malformed one were delivered", p.name().c_str(), s->got, p.ws_sent);
	}
	SIM_CHECK(max_alloc() < (4u << 20), "allocation", "%zu bytes were allocated at once", max_alloc());
	// and the server still serves
	auto p = std::make_shared<Peer>();
	p->w = pw;
	p->id = n;
	w.peers.push_back(p);
	p->start(0);
	run_until(w.rl, 60 * SEC, [pw] { return pw->all_done(); });
	SIM_CHECK(p->done, "isolation", "a new client is not served afterwards");
	if (w.hits)
		nontrivial();
	drop_events();
	for (auto &p : w.peers)
		p->r->on_event = nullptr;
	w.server.reset();
	w.late_timer.reset();
	w.lates.clear();
	w.peers.clear();
}
// ---------------------------------------------------------------- web socket clients of hostile servers
namespace {
struct CWorld;
enum CKind { C_WELL, C_EVIL, C_FUZZ, C_HUGE, C_SHAKE, C_CUT, C_KINDS };
const char *ckind_names[] = {"well-behaved", "malformed frame", "mutated frames", "huge frame", "bad handshake", "truncated"};
struct CPeer : std::enable_shared_from_this<CPeer> {
	CWorld *w = nullptr;
	int id = 0;
	CKind kind = C_WELL;
	std::string why, outq;
	bool flushing = false;
	std::unique_ptr<ch::ClientConnection> conn;
	RawPtr r;
	Parser hs;
	size_t pos = 0;
	bool shaken = false, closed = false, sent_all = false, ended = false, close_seen = false;
	int sent = 0, got = 0, echoes = 0, rounds = 0;
	i64 sent_at = 0, ended_at = 0, began_at = 0;
	void on_rw();
	void event();
	void shake(const std::string &key);
	void pieces(const std::string &more);
	void flush();
	void finish();
	void round();
	std::string name() const { return std::string("server ") + std::to_string(id) + " (" + ckind_names[kind] + (why.empty() ? "" : ": " + why) + ")"; }
	std::string body(int n) const { return "m" + std::to_string(n) + " " + text(u32(id) * 100 + u32(n), 0, size_t(n) * 131 % 700); }
};
struct CWorld {
	World tools;  // keys
	crab::RunLoop &rl = tools.rl;
	std::vector<std::shared_ptr<CPeer>> peers;
	int delivered = 0;
	bool all_done() const {
		for (auto &p : peers)
			if (!p->closed)
				return false;
		return true;
	}
};
void CPeer::on_rw() {
	if (!conn->is_open()) {
		SIM_CHECK(!closed, "closed-twice", "%s: the client is told of the end again", name().c_str());
		SIM_CHECK(kind != C_WELL || rounds <= 0, "isolation", "%s: the client was disconnected", name().c_str());
		closed = true;
		ev("ws_client_closed", id);
		return;
	}
	ch::WebMessage m;
	while (conn->read_next(m)) {
		w->delivered++;
		SIM_CHECK(!close_seen, "after-close", "%s: a message after the close message", name().c_str());
		if (m.is_close()) {
			close_seen = true;
			continue;
		}
		SIM_CHECK(m.is_text() || m.is_binary(), "malformed-delivered", "%s: opcode %d delivered", name().c_str(), int(m.opcode));
		SIM_CHECK(m.body.compare(0, 4, "evil") != 0, "malformed-delivered", "%s: delivered: %s", name().c_str(), hex(m.body).c_str());
		if (m.is_text())
			SIM_CHECK(crab::is_valid_utf8(m.body), "malformed-delivered", "%s: text that is not UTF-8 was delivered: %s", name().c_str(), hex(m.body).c_str());
		if (kind != C_FUZZ) {
			SIM_CHECK(got < sent && m.body == body(got), "message", "%s: message %d of %d: %s", name().c_str(), got, sent, hex(m.body).c_str());
			got++;
		}
		if (kind == C_WELL)
			conn->write(ch::WebMessage(ch::WebMessageOpcode::BINARY, m.body));
	}
}
void CPeer::event() {
	if (!r->connected)
		return;
	if (!shaken) {
		if (!hs.feed(r->in, pos))
			fail("handshake", "%s: %s", name().c_str(), hs.err.c_str());
		if (hs.st == Parser::DONE) {
			shaken = true;
			shake(hs.m.get("sec-websocket-key"));
		}
	}
	if (kind == C_WELL) {
		Frame f;
		while (shaken && decode(r->in, pos, f)) {
			SIM_CHECK(f.opcode == 2 && f.payload == body(echoes), "isolation", "%s: message %d came back as opcode %d, %s", name().c_str(), echoes, f.opcode, hex(f.payload).c_str());
			echoes++;
			sent_at = 0;
			round();
		}
	}
	if ((r->got_fin || r->got_rst) && !ended) {
		SIM_CHECK(kind != C_WELL, "isolation", "%s: the client hung up", name().c_str());
		ended = true;
		ended_at = now();
		r->close();
	}
}
void CPeer::round() {
	std::weak_ptr<CPeer> weak = shared_from_this();
	if (rounds-- > 0) {
		after(range(0, 2000) * MS, [weak] {
			auto p = weak.lock();
			if (!p)
				return;
			Frame f = frame(p->w->tools, 2, p->body(p->sent));
			f.masked = false;
			p->sent++;
			p->sent_at = now();
			p->pieces(encode(f));
		});
		return;
	}
	finish();
}
void CPeer::shake(const std::string &key) {
	World &t = w->tools;
	began_at = now();
	bool bad = kind == C_SHAKE;
	std::string h = "HTTP/1.1 101 Switching Protocols\r\nupgrade: websocket\r\nconnection: upgrade\r\nsec-websocket-accept: " + ws_accept(key) + "\r\n\r\n";
	if (bad) {
		std::string ok = "HTTP/1.1 101 Switching Protocols\r\n", u = "upgrade: websocket\r\n", c = "connection: upgrade\r\n", a = "sec-websocket-accept: " + ws_accept(key) + "\r\n";
		switch (choose(7)) {
		case 0: why = "wrong key", h = ok + u + c + "sec-websocket-accept: " + ws_accept(key + "x") + "\r\n\r\n"; break;
		case 1: why = "no key", h = ok + u + c + "\r\n"; break;
		case 2: why = "status 200", h = "HTTP/1.1 200 OK\r\ncontent-length: 0\r\n" + u + c + a + "\r\n"; break;
		case 3: why = "no upgrade header", h = ok + c + a + "\r\n"; break;
		case 4: why = "status 404", h = "HTTP/1.1 404 Not Found\r\ncontent-length: 3\r\n\r\nabc"; break;
		case 5: why = "too long", h = ok + u + c + a + "x: " + token(t.k(), 8300 + choose(9000)) + "\r\n\r\n"; break;
		default: why = "garbage", h = "X" + pat(t.k(), 0, 1 + choose(3000)); break;
		}
	}
	auto data = [&](int op, const std::string &b) {
		Frame f = frame(t, op, b);
		f.masked = false;
		return encode(f);
	};
	std::string s;
	if (kind != C_WELL && kind != C_SHAKE)
		for (u32 i = choose(4); i; i--)
			s += data(1, body(sent++));
	std::string evil = data(2, "evil after");
	switch (kind) {
	case C_EVIL: {
		std::string f = bad_frame(t, why);
		s += f + evil;  // masked, as those of a client: that is a violation too
		break;
	}
	case C_FUZZ: {
		for (u32 i = choose(4); i; i--)
			s += data(choose(2) ? 1 : 2, text(t.k(), 0, size_log(1, 2000)));
		s += data(9, "ping");
		if (choose(3) == 0)
			s += data(8, "\x03\xe8" "bye");
		if (choose(2))
			s = mutate(t.k(), s);
		else {
			h = mutate(t.k(), h + s);
			s.clear();
		}
		break;
	}
	case C_HUGE: {
		u64 claim = (1ull << range(16, 63)) - choose(2);
		why = "claims " + std::to_string(claim) + " bytes";
		std::string f = data(choose(2) ? 1 : 2, "");
		f.resize(2);
		f[1] = 127;
		for (int b = 56; b >= 0; b -= 8)
			f.push_back(char(claim >> b));
		s += f + pat(t.k(), 0, size_log(1, 8000));
		break;
	}
	case C_SHAKE: s += evil; break;
	case C_CUT: {
		std::string q = data(2, "evil" + text(t.k(), 0, 1 + size_log(1, 70000)));
		q.resize(choose(3) ? choose(u32(q.size())) : q.size() - 1);
		s += q;
		break;
	}
	default: break;
	}
	if (kind == C_WELL) {
		pieces(h);
		return round();
	}
	pieces(h + s);
}
void CPeer::pieces(const std::string &more) {
	outq += more;
	if (!flushing)
		flush();
}
void CPeer::flush() {
	flushing = false;
	if (!r->open() || ended)
		return;
	size_t n = choose(2) ? outq.size() : std::min(outq.size(), size_log(1, outq.size() + 1));
	if (outq.size() > 20000)
		n = std::max<size_t>(n, 2000);
	r->send(outq.substr(0, n));
	outq.erase(0, n);
	std::weak_ptr<CPeer> weak = shared_from_this();
	if (!outq.empty()) {
		flushing = true;
		after(range(0, 20) * MS, [weak] {
			auto p = weak.lock();
			if (p)
				p->flush();
		});
		return;
	}
	if (kind == C_WELL)
		return;
	sent_all = true;
	bool waits = (kind == C_EVIL || kind == C_SHAKE) && choose(2);  // for the client to do something
	if (!waits)
		after(choose(2) ? 0 : range(0, 5000) * MS, [weak] {
			auto p = weak.lock();
			if (p)
				p->finish();
		});
}
void CPeer::finish() {
	if (ended)
		return;
	ended = true;
	ended_at = now();
	switch (choose(3)) {
	case 0: r->fin(); break;
	case 1: r->close(); break;
	default: r->reset(); break;
	}
}
}  // namespace

SCENARIO(malformed_ws_client) {
	swarm({F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_EPOLL_PARTIAL, F_EPOLL_REORDER, F_SHORT_READ, F_SHORT_WRITE, F_SEND_EAGAIN, F_LATE_WAKE, F_RCV_WINDOW});
	sane_net();
	CWorld w;
	cfg.step_limit = 1500000;
	w.tools.key = 9000 + choose(1000000);
	CWorld *pw = &w;
	int n = 2 + int(choose(5));
	std::deque<std::pair<i64, std::shared_ptr<CPeer>>> starts;
	for (int i = 0; i < n; i++) {
		auto p = std::make_shared<CPeer>();
		p->w = pw;
		p->id = i;
		p->kind = i == 0 ? C_WELL : CKind(weighted({1, 4, 3, 2, 2, 2}));
		p->rounds = 1 + int(choose(8));
		p->hs.request = true;
		CPeer *pp = p.get();
		std::weak_ptr<CPeer> weak = p;
		raw_listen(uint16_t(100 + i), [weak](RawPtr r) {
			auto p = weak.lock();
			if (!p)
				return;
			p->r = r;
			r->on_event = [weak] {
				auto p = weak.lock();
				if (p)
					p->event();
			};
			p->event();
		});
		p->conn.reset(new ch::ClientConnection([pp] { pp->on_rw(); }));
		w.peers.push_back(p);
	}
	for (auto &p : w.peers) {
		ch::RequestHeader rh;
		rh.set_uri("/ws");
		if (!p->conn->connect(addr(uint16_t(100 + p->id))))
			harness_error("connect");
		p->conn->web_socket_upgrade(rh);
		if (choose(3) == 0)
			run_for(w.rl, range(0, 1000) * MS);
	}
	run_until(w.rl, 100 * SEC, [pw] { return pw->all_done(); });
	stop_faults();
	run_until(w.rl, 200 * SEC, [pw] { return pw->all_done(); });
	for (auto &p : w.peers) {
		SIM_CHECK(p->closed, "not-closed", "%s: the client is still open, the server ended it %.1f s ago", p->name().c_str(), p->ended ? (now() - p->ended_at) / 1e9 : 0.0);
		if (p->kind == C_WELL)
			SIM_CHECK(p->echoes == p->sent, "isolation", "%s: %d of %d messages came back", p->name().c_str(), p->echoes, p->sent);
	}
	SIM_CHECK(max_alloc() < (4u << 20), "allocation", "%zu bytes were allocated at once", max_alloc());
	if (w.delivered)
		nontrivial();
	drop_events();
	for (auto &p : w.peers) {
		if (p->r)
			p->r->on_event = nullptr;
		raw_unlisten(uint16_t(100 + p->id));
	}
	w.peers.clear();
}
