// HTTP server against scripted clients.
// C16 pipelining and order, C17 framing and streaming, C22 limits and disconnects, C23 throwing handlers, C24 Date.
#include "http.hpp"

namespace {
namespace ch = crab::http;
struct World;
struct Cl;
enum Mode { SYNC, SYNC_CHUNKED, POSTPONED, STREAM_CL, STREAM_CHUNKED, POSTPONED_STREAM, THROW_STD, THROW_AUTH, WRITE_THROW, STREAM_THROW, POSTPONE_THROW, SIMPLE_TEXT, SIMPLE_HTML, MODES };
enum Part { NOT_SENT, SENT, HANDED, RESPONDED };
struct Plan {
	int id = 0;
	u32 key = 0;
	Cl *c = nullptr;
	// request
	std::string method, path, query, host, origin, auth, ctype_mime, ctype_suffix, body, wire;
	std::vector<std::pair<std::string, std::string>> headers;
	int minor = 1;
	bool keep = true, has_cl = false;
	u64 wire_end = 0;  // position in the client's byte stream after this request
	// response
	Mode mode = SYNC;
	int status = 200;
	std::string status_text, rbody, rmime, rsuffix, own_date, own_server, realm, what;
	std::vector<std::pair<std::string, std::string>> rheaders;
	bool write_in_other = false;
	// state
	Part part = NOT_SENT;
	bool received = false;
	i64 wrote_at = 0, wrote_end = 0, lag = 0;
	// interest of the user of the library
	ch::Client *who = nullptr;
	bool postponed = false, streaming = false, chunked = false, paused = false, held = false;
	size_t pos = 0;
	int gone = 0;
	i64 handed_at = 0;
};
struct Cl {
	World *w = nullptr;
	int id = 0;
	RawPtr r;
	std::vector<std::unique_ptr<Plan>> plans;
	size_t sent = 0, answered = 0, handed = 0, parsed_pos = 0;
	std::unique_ptr<Parser> parser;
	ch::Client *who = nullptr;
	bool broken = false, close_done = false, finished = false, slow = false, dead_reset = false, vanish = false;
	u64 wire = 0;
	i64 broken_at = 0, answered_at = 0;
	u32 depth = 1;
	i64 think = 0;
	bool leaves = false, half_sent = false, hangs_up = false;
	int vanish_after = 0;
	~Cl() {
		if (r)
			r->on_event = nullptr;
	}
	void start();
	void more();
	void consume();
	void event();
	void end(int how);
	bool done() const { return broken || answered == plans.size() || close_done; }
};
struct World {
	crab::RunLoop rl;
	std::unique_ptr<ch::Server> server;
	std::vector<std::unique_ptr<Cl>> cls;
	std::map<int, Plan *> by_id;
	std::vector<Plan *> live;  // interests: postponed or streaming, or held
	std::unique_ptr<crab::Timer> driver;
	int next_id = 1, port = 80;
	size_t maxconn = 100000;
	int huge = 0;
	bool small = false;  // tiny buffers or slow network: little data
	bool check_limit = false, check_date = false, leavers = false;
	std::initializer_list<u32> modes;
	size_t max_body = 60000;
	bool driver_on = true;
	u64 responses = 0, pipelined = 0, notified = 0, throws = 0;
	std::vector<std::pair<i64, i64>> jumps;  // monotonic time, wall offset before the jump (wall - monotonic)

	~World() { drop_events(); }
	size_t size(size_t lo, size_t hi) { return size_log(lo, std::max(lo, std::min(hi, max_body))); }
	void make_request(Plan &p, bool last);
	void make_response(Plan &p);
	void handle(ch::Client *who, ch::Request &&req);
	void respond(Plan &p);
	void begin_stream(Plan &p);
	void pump(Plan &p);
	void drop_live(Plan &p) { live.erase(std::remove(live.begin(), live.end(), &p), live.end()); }
	void complete(Plan &p);
	void drive();
	void gone(Plan &p, const char *how);
	void verify(Plan &p, const Msg &m);
	void fields(Plan &p, const ch::Request &req);
	void stamp(Plan &p) {
		p.wrote_at = now();
		p.lag = now() - loop_now();  // how long the current batch of handlers has taken
	}
	void mark_done(Plan &p) {
		p.part = RESPONDED;
		responses++;
	}
};

std::string ows() {
	static const char *o[] = {" ", "", "  ", "\t", " \t "};
	return o[choose(5)];
}
void World::make_request(Plan &p, bool last) {
	static const char *methods[] = {"GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "X-odd!tok~en"};
	p.id = next_id++;
	p.key = u32(p.id) * 10;
	by_id[p.id] = &p;
	p.method = methods[choose(7)];
	std::string raw = "/r" + std::to_string(p.id);
	p.path = raw;
	u32 segs = choose(4);
	for (u32 s = 0; s < segs; s++) {
		std::string seg = token(p.key + 1 + s, size_log(1, 20));
		p.path += "/" + seg;
		raw += "/";
		for (char c : seg) {
			if (choose(12) == 0) {
				char b[8];
				snprintf(b, sizeof b, choose(2) ? "%%%02x" : "%%%02X", (unsigned char)c);
				raw += b;
			} else
				raw += c;
		}
		if (choose(6) == 0) {
			static const char *enc[] = {"%20", "%25", "%3f", "%3F", "%23", "%c3%a9", "%00"};
			static const std::string dec[] = {" ", "%", "?", "?", "#", "\xc3\xa9", std::string(1, 0)};
			u32 e = choose(7);
			raw += enc[e];
			p.path += dec[e];
		}
	}
	if (choose(2)) {
		p.query = token(p.key + 5, size_log(1, 60)) + (choose(2) ? "=%20&x=/?" : "");
		raw += "?" + p.query;
	}
	if (choose(10) == 0)
		raw += "#anchor";
	p.minor = choose(6) == 0 ? 0 : 1;
	std::string h;
	std::string nl = choose(12) == 0 ? "\n" : "\r\n";
	p.host = token(p.key + 6, 8) + ".example:8080";
	h += rnd_case("host") + ":" + ows() + p.host + nl;
	p.keep = p.minor == 1;
	if (p.minor == 1 && last && choose(3) == 0) {
		p.keep = false;
		h += rnd_case("connection") + ":" + ows() + rnd_case("close") + nl;
	} else if (p.minor == 0) {
		if (!last || choose(2)) {
			p.keep = true;
			h += "Connection: keep-alive" + nl;
		}
	} else if (choose(6) == 0)
		h += "Connection:" + ows() + rnd_case("keep-alive") + nl;
	u32 hn = choose(5);
	for (u32 i = 0; i < hn; i++) {
		std::string name = "x-" + token(p.key + i, size_log(1, 12));
		std::string val = value(p.key + i, choose(5) == 0 ? 0 : size_log(1, small ? 30 : (choose(10) == 0 ? 1400 : 100)));
		p.headers.emplace_back(name, val);
		h += rnd_case(name) + ":" + ows() + val + (choose(5) == 0 ? " \t" : "") + nl;
	}
	if (choose(6) == 0) {
		p.origin = "http://" + token(p.key + 7, 5);
		h += "Origin: " + p.origin + nl;
	}
	if (choose(8) == 0) {
		p.auth = token(p.key + 8, 12);
		h += "Authorization: Basic " + p.auth + nl;
	}
	if (choose(4) == 0) {
		p.ctype_mime = "text/plain";
		p.ctype_suffix = choose(2) ? "charset=utf-8" : "";
		h += "Content-Type: " + rnd_case(p.ctype_mime) + (p.ctype_suffix.empty() ? "" : "; " + p.ctype_suffix) + nl;
	}
	std::string b;
	switch (weighted({3, 2, 2, 1})) {
	case 0: break;
	case 1: {
		size_t n = size(1, 20000);
		p.has_cl = true;
		h += rnd_case("content-length") + ":" + ows();
		size_t head = p.method.size() + raw.size() + 10 + nl.size() + h.size() + 4 + 2 * nl.size();
		if (max_body >= 20000 && choose(5) == 0 && head < 8000)  // ends near a multiple of the read buffer
			n = size_t(i64(8192 * (1 + choose(2)) - head) + range(-2, 2));
		p.body = pat(p.key, 0, n);
		h += std::to_string(p.body.size()) + nl;
		b = p.body;
		break;
	}
	case 2: {
		bool big = huge > 0 && choose(4) == 0;
		if (big)
			huge--;
		p.body = pat(p.key, 0, big ? size_t(range(900000, 2500000)) : choose(5) == 0 ? 0 : size(1, 20000));
		h += rnd_case("transfer-encoding") + ":" + ows() + rnd_case("chunked") + nl;
		size_t pos = 0;
		size_t many = !big && !small && choose(8) == 0 ? 1 + choose(40) : 0;  // hundreds of chunks
		if (many)
			p.body = pat(p.key, 0, std::min<size_t>(many * (100 + choose(500)), max_body));
		while (pos < p.body.size()) {
			size_t n = many ? std::min<size_t>(many, p.body.size() - pos) : choose(3) && !big ? size_log(1, p.body.size() - pos) : p.body.size() - pos;
			if (!many && p.body.size() / std::max<size_t>(n, 1) > 100)
				n = std::min(p.body.size() - pos, p.body.size() / 50 + 1);
			char num[32];
			snprintf(num, sizeof num, choose(2) ? "%zx" : "%04zX", n);
			b += num;
			if (choose(8) == 0)
				b += ";ext=" + token(p.key + 9, 5);
			b += nl + p.body.substr(pos, n) + nl;
			pos += n;
		}
		b += "0" + nl;
		if (choose(6) == 0) {
			size_t from = b.size(), room = choose(4) == 0 && !small ? 3900 : 100;
			u32 n = room > 100 ? 10 + choose(1000) : 1 + choose(3), k = p.key;
			while (n-- && b.size() - from + 6 < room) {
				std::string t = n > 60 ? token(k, 1) + ":" : rnd_case("x-") + token(k, size_log(1, 20)) + ":" + ows() + value(k, choose(40));
				if (b.size() - from + t.size() + 2 < room)
					b += t + nl;
				k++;
			}
		}
		b += nl;
		break;
	}
	case 3:
		p.has_cl = true;
		h += "Content-Length: 0" + nl;
		break;
	}
	if (choose(15) == 0)
		p.wire += "\r\n";  // empty lines before a request are skipped
	p.wire += p.method + " " + raw + " HTTP/1." + std::to_string(p.minor) + nl + h + nl + b;
}
void World::make_response(Plan &p) {
	static const int st[] = {200, 404, 403, 500, 299, 501};
	p.mode = Mode(weighted(modes));
	p.status = st[choose(6)];
	if (choose(6) == 0)
		p.status_text = "Odd Text " + token(p.key, 4);
	u32 hn = choose(3);
	for (u32 i = 0; i < hn; i++)
		p.rheaders.emplace_back("x-" + token(p.key + 3 + i, size_log(1, 10)), value(p.key + 4 + i, size_log(1, 60)));
	if (choose(3) == 0) {
		p.rmime = "application/json";
		p.rsuffix = choose(2) ? "charset=utf-8" : "";
	}
	if (choose(8) == 0)
		p.own_date = "Thu, 01 Jan 1970 00:00:07 GMT";
	p.rbody = pat(p.key + 77, 0, choose(5) == 0 ? 0 : size(1, choose(3) == 0 ? 200000 : 6000));
	if (p.mode == SIMPLE_TEXT || p.mode == SIMPLE_HTML)
		p.rbody = text(p.key + 77, 0, size(1, 500));
	p.realm = token(p.key, 6);
	p.what = "cannot serve " + token(p.key + 1, size_log(1, small || choose(4) ? 40 : 5000));
	p.write_in_other = choose(2);
}
void World::fields(Plan &p, const ch::Request &req) {
	auto &h = req.header;
	SIM_CHECK(h.method == p.method, "request", "request %d: method %s instead of %s", p.id, h.method.c_str(), p.method.c_str());
	SIM_CHECK(h.path == p.path, "request", "request %d: path %s instead of %s", p.id, hex(h.path).c_str(), hex(p.path).c_str());
	SIM_CHECK(h.query_string == p.query, "request", "request %d: query %s instead of %s", p.id, hex(h.query_string).c_str(), hex(p.query).c_str());
	SIM_CHECK(h.host == p.host, "request", "request %d: host %s instead of %s", p.id, hex(h.host).c_str(), p.host.c_str());
	SIM_CHECK(h.origin == p.origin && h.basic_authorization == p.auth, "request", "request %d: origin %s or authorization %s", p.id, hex(h.origin).c_str(), hex(h.basic_authorization).c_str());
	SIM_CHECK(h.content_type_mime == p.ctype_mime && h.content_type_suffix == p.ctype_suffix, "request", "request %d: content type %s; %s", p.id, hex(h.content_type_mime).c_str(), hex(h.content_type_suffix).c_str());
	SIM_CHECK(h.http_version_major == 1 && h.http_version_minor == p.minor, "request", "request %d: version %d.%d", p.id, h.http_version_major, h.http_version_minor);
	SIM_CHECK(h.keep_alive == p.keep, "request", "request %d: keep_alive %d", p.id, int(h.keep_alive));
	SIM_CHECK(bool(h.content_length) == p.has_cl && (!p.has_cl || *h.content_length == p.body.size()), "request", "request %d: content length", p.id);
	SIM_CHECK(h.headers.size() == p.headers.size(), "request", "request %d: %zu headers instead of %zu", p.id, h.headers.size(), p.headers.size());
	for (size_t i = 0; i < p.headers.size(); i++)
		SIM_CHECK(h.headers[i].name == p.headers[i].first && h.headers[i].value == p.headers[i].second, "request", "request %d: header %s: %s instead of %s: %s", p.id, hex(h.headers[i].name).c_str(), hex(h.headers[i].value).c_str(), p.headers[i].first.c_str(), hex(p.headers[i].second).c_str());
	SIM_CHECK(req.body == p.body, "request-body", "request %d: body of %zu bytes instead of %zu, differs at %zu", p.id, req.body.size(), p.body.size(), diff_at(req.body, p.body));
}
void World::handle(ch::Client *who, ch::Request &&req) {
	int id = 0;
	if (req.header.path.size() > 2)
		id = atoi(req.header.path.c_str() + 2);
	auto it = by_id.find(id);
	SIM_CHECK(it != by_id.end() && it->second->part >= SENT, "invented", "the handler got a request nobody sent: %s %s", hex(req.header.method).c_str(), hex(req.header.path).c_str());
	Plan &p = *it->second;
	Cl &c = *p.c;
	ev("handed", c.id, p.id);
	SIM_CHECK(p.part == SENT, "twice", "request %d was handed over again", p.id);
	SIM_CHECK(c.handed < c.plans.size() && c.plans[c.handed].get() == &p, "order", "client %d: request %d handed over out of order", c.id, p.id);
	SIM_CHECK(c.handed == 0 || c.plans[c.handed - 1]->part == RESPONDED, "overlap", "client %d: request %d handed over before the response to the previous one is complete", c.id, p.id);
	SIM_CHECK(c.r->local_port == who->get_peer_address().get_port(), "address", "client %d: peer address %s", c.id, who->get_peer_address().to_string().c_str());
	SIM_CHECK(!c.who || c.who == who, "identity", "client %d: another Client object", c.id);
	c.who = who;
	c.handed++;
	p.part = HANDED;
	p.who = who;
	p.handed_at = now();
	fields(p, req);
	if (fault_rate[F_SLOW_HANDLER] && fault(F_SLOW_HANDLER))
		busy(range(0, 30) * MS);
	if (!live.empty() && choose(4) == 0) {  // another request is completed from inside this handler
		Plan *o = live[choose(u32(live.size()))];
		if (o->c != &c)
			complete(*o);
	}
	switch (p.mode) {
	case SYNC:
	case SYNC_CHUNKED:
	case SIMPLE_TEXT:
	case SIMPLE_HTML: respond(p); break;
	case STREAM_CL:
	case STREAM_CHUNKED:
		begin_stream(p);
		break;
	case POSTPONED:
	case POSTPONED_STREAM: {
		p.postponed = true;
		live.push_back(&p);
		Plan *pp = &p;
		who->postpone_response([this, pp] { gone(*pp, "postponed response"); });
		break;
	}
	case THROW_STD:
		throws++;
		mark_done(p);
		stamp(p);
		throw std::runtime_error(p.what);
	case THROW_AUTH:
		throws++;
		mark_done(p);
		stamp(p);
		throw ch::ErrorAuthorization(p.realm);
	case WRITE_THROW:
		throws++;
		respond(p);
		if (choose(2))
			throw ch::ErrorAuthorization(p.realm);
		throw std::runtime_error(p.what);
	case STREAM_THROW:
		throws++;
		p.chunked = choose(2);
		begin_stream(p);
		if (choose(2))
			throw ch::ErrorAuthorization(p.realm);
		throw std::runtime_error(p.what);
	case POSTPONE_THROW: {
		throws++;
		p.postponed = false;
		Plan *pp = &p;
		who->postpone_response([this, pp] {
			SIM_CHECK(pp->c->w == this, "x", "x");
			fail("notified-answered", "request %d: disconnect notified to a postponed response that was answered with an error", pp->id);
		});
		mark_done(p);
		stamp(p);
		throw std::runtime_error(p.what);
	}
	default: break;
	}
}
void World::respond(Plan &p) {
	ch::Response r;
	if (p.mode == SIMPLE_TEXT || p.mode == SIMPLE_HTML) {
		r = p.mode == SIMPLE_TEXT ? ch::Response::simple_text(p.status, std::string(p.rbody)) : ch::Response::simple_html(p.status, std::string(p.rbody));
		p.status_text.clear();
		p.own_date.clear();
		p.rheaders.clear();
		p.rmime = p.mode == SIMPLE_TEXT ? "text/plain" : "text/html";
		p.rsuffix = "charset=utf-8";
		if (p.mode == SIMPLE_HTML)
			p.rbody = "<html><body>" + p.rbody + "</body></html>";
	} else {
		r.header.status = p.status;
		r.header.status_text = p.status_text;
		for (auto &h : p.rheaders)
			r.header.headers.push_back({h.first, h.second});
		if (!p.rmime.empty())
			r.header.set_content_type(p.rmime, p.rsuffix);
		r.header.date = p.own_date;
		if (p.mode == SYNC_CHUNKED || (p.mode == POSTPONED && p.key % 30 == 0)) {
			r.header.transfer_encoding_chunked = true;
			r.body = p.rbody;
			p.chunked = true;
		} else
			r.set_body(std::string(p.rbody));
	}
	stamp(p);
	p.postponed = false;
	mark_done(p);
	ev("respond", p.c->id, p.id);
	p.who->write(std::move(r));
	p.wrote_end = now();
}
void World::begin_stream(Plan &p) {
	ch::ResponseHeader h;
	h.status = p.status;
	h.status_text = p.status_text;
	for (auto &x : p.rheaders)
		h.headers.push_back({x.first, x.second});
	if (!p.rmime.empty())
		h.set_content_type(p.rmime, p.rsuffix);
	h.date = p.own_date;
	if (p.mode != STREAM_CL && (p.mode == STREAM_CHUNKED || choose(2)))
		p.chunked = true;
	if (p.chunked)
		h.transfer_encoding_chunked = true;
	else
		h.content_length = p.rbody.size();
	p.postponed = false;
	p.streaming = true;
	p.pos = 0;
	if (std::find(live.begin(), live.end(), &p) == live.end())
		live.push_back(&p);
	stamp(p);
	ev("begin_stream", p.c->id, p.id, p.chunked);
	Plan *pp = &p;
	World *w = this;
	p.who->start_write_stream(h, [w, pp] {
		World *ww = w;
		Plan *q = pp;
		if (!q->who->is_open())
			return ww->gone(*q, "stream");
		SIM_CHECK(q->streaming, "stream-after-end", "request %d: the stream handler is called after the response was finished", q->id);
		if (!q->paused)
			ww->pump(*q);
	});
	p.wrote_end = now();
}
// writes what the socket takes, or stops early
void World::pump(Plan &p) {
	ch::Client *who = p.who;
	Plan *pp = &p;
	int burst = 0;
	auto check = [&](const char *op) {
		if (pp->streaming)
			SIM_CHECK(who->get_body_position() == pp->pos, "body-position", "request %d: get_body_position() is %d after %s, %zu bytes written", pp->id, int(who->get_body_position()), op, pp->pos);
	};
	check("being called");
	while (true) {
		size_t left = p.rbody.size() - p.pos;
		if (left == 0) {
			p.streaming = false;
			drop_live(p);
			mark_done(p);
			ev("end_stream", p.c->id, p.id);
			if (p.chunked)
				who->write_last_chunk();
			else if (p.rbody.empty()) {
				if (choose(2))
					who->write("", 0);
				else
					who->write(std::string());
			}
			return;  // the handler is gone now
		}
		if (!who->can_write()) {
			PROBE("stream_waits_for_socket");
			return;
		}
		if (burst++ > 30 || choose(8) == 0) {
			PROBE("stream_pauses");
			p.paused = true;
			return;
		}
		size_t n = choose(3) == 0 ? left : size_log(1, left);
		if (p.rbody.size() / n > 300)
			n = std::min(left, p.rbody.size() / 100 + 1);
		bool last_cl = n == left && !p.chunked;
		int bufs = choose(4) == 0 ? int(choose(4)) : 0;  // buffer-only pieces, then a flushing one
		while (bufs-- && n > 1) {
			size_t k = size_t(range(1, i64(n) - 1));
			std::string piece = p.rbody.substr(p.pos, k);
			p.pos += k;
			n -= k;
			if (choose(2))
				who->write(std::move(piece), crab::BUFFER_ONLY);
			else
				who->write(piece.data(), piece.size(), crab::BUFFER_ONLY);
			check("a BUFFER_ONLY write");
		}
		std::string piece = p.rbody.substr(p.pos, n);
		p.pos += n;
		if (last_cl) {  // finishes the response: the stream handler is released by this write
			p.streaming = false;
			drop_live(p);
			mark_done(p);
			ev("end_stream", p.c->id, p.id);
		}
		if (choose(2))
			who->write(std::move(piece));
		else
			who->write(piece.data(), piece.size());
		if (last_cl) {
			SIM_CHECK(!who->is_open() || who->get_body_position() == pp->pos, "body-position", "request %d: get_body_position() is %d after the last write, %zu bytes written", pp->id, int(who->get_body_position()), pp->pos);
			return;
		}
		check("a write");
	}
}
void World::complete(Plan &p) {
	if (p.held)
		return;
	if (p.postponed) {
		PROBE("postponed_completed");
		if (p.mode == POSTPONED_STREAM) {
			begin_stream(p);
		} else {
			drop_live(p);
			respond(p);
		}
	} else if (p.streaming && p.paused) {
		p.paused = false;
		if (p.who->is_open())
			pump(p);
	}
}
void World::gone(Plan &p, const char *how) {
	ev("gone", p.c->id, p.id);
	p.gone++;
	SIM_CHECK(p.gone == 1, "notified-twice", "request %d: disconnect notified %d times", p.id, p.gone);
	SIM_CHECK(p.postponed || p.streaming, "notified-answered", "request %d: disconnect notified to a finished %s", p.id, how);
	SIM_CHECK(!p.who->is_open(), "notified-open", "request %d: notified with the connection open", p.id);
	SIM_CHECK(p.c->broken, "notified-alive", "request %d: disconnect notified although the client is there", p.id);
	notified++;
	drop_live(p);
	p.postponed = p.streaming = false;
	p.who = nullptr;
	p.c->who = nullptr;
	if (!live.empty() && choose(3) == 0) {
		Plan *o = live[choose(u32(live.size()))];
		if (o->c != p.c)
			complete(*o);
	}
}
void World::drive() {
	u32 n = choose(3);
	for (u32 i = 0; i < n && !live.empty(); i++)
		complete(*live[choose(u32(live.size()))]);
	if (driver_on)
		driver->once(dur(range(0, small ? 60 : 20) * MS + (choose(4) == 0 ? 300 * MS : 0)));
}
void World::verify(Plan &p, const Msg &m) {
	int want_status = p.status;
	std::string want_body = p.rbody, want_text = p.status_text;
	bool err = p.mode == THROW_STD || p.mode == POSTPONE_THROW, auth = p.mode == THROW_AUTH;
	if (err)
		want_status = 422, want_body = p.what, want_text.clear();
	if (auth)
		want_status = 401, want_text.clear();
	SIM_CHECK(m.status == want_status, "status", "request %d: status %d instead of %d", p.id, m.status, want_status);
	SIM_CHECK(want_text.empty() || m.status_text == want_text, "status", "request %d: status text '%s' instead of '%s'", p.id, hex(m.status_text).c_str(), want_text.c_str());
	SIM_CHECK(m.major == 1 && m.minor == p.minor, "version", "request %d (HTTP/1.%d): the response says HTTP/%d.%d", p.id, p.minor, m.major, m.minor);
	if (!auth) {
		SIM_CHECK(m.body == want_body, "body", "request %d: body of %zu bytes instead of %zu, differs at %zu", p.id, m.body.size(), want_body.size(), diff_at(m.body, want_body));
	}
	std::vector<std::pair<std::string, std::string>> xs;
	for (auto &h : m.headers)
		if (h.first.compare(0, 2, "x-") == 0)
			xs.push_back(h);
	if (!err && !auth) {
		SIM_CHECK(xs == p.rheaders, "headers", "request %d: %zu headers of the handler instead of %zu, or changed", p.id, xs.size(), p.rheaders.size());
		SIM_CHECK(m.chunked == p.chunked, "framing", "request %d: chunked=%d", p.id, int(m.chunked));
		std::string ct = p.rmime.empty() ? "" : p.rmime + (p.rsuffix.empty() ? "" : "; " + p.rsuffix);
		SIM_CHECK(m.get("content-type") == ct && m.count("content-type") == (ct.empty() ? 0 : 1), "headers", "request %d: content-type '%s' instead of '%s'", p.id, hex(m.get("content-type")).c_str(), ct.c_str());
	} else {
		SIM_CHECK(xs.empty(), "headers", "request %d: headers in an error response", p.id);
	}
	if (auth)
		SIM_CHECK(m.count("www-authenticate") == 1 && m.get("www-authenticate").find("realm=\"" + p.realm + "\"") != std::string::npos && lower(m.get("www-authenticate")).compare(0, 6, "basic ") == 0, "www-authenticate", "request %d: WWW-Authenticate: %s", p.id, hex(m.get("www-authenticate"), 100).c_str());
	std::string con = lower(m.get("connection"));
	bool says_close = con.find("close") != std::string::npos, says_keep = con.find("keep-alive") != std::string::npos;
	if (p.minor == 1)
		SIM_CHECK(says_close == !p.keep, "persistence", "request %d (keep=%d): connection header '%s'", p.id, int(p.keep), con.c_str());
	else
		SIM_CHECK(says_keep == p.keep, "persistence", "request %d of HTTP/1.0 (keep=%d): connection header '%s'", p.id, int(p.keep), con.c_str());
	SIM_CHECK(m.count("date") == 1, "date-count", "request %d: %d Date headers", p.id, m.count("date"));
	std::string d = m.get("date");
	if (!p.own_date.empty() && !err && !auth) {
		SIM_CHECK(d == p.own_date, "date-own", "request %d: Date '%s' instead of the handler's '%s'", p.id, hex(d).c_str(), p.own_date.c_str());
		return;
	}
	i64 t = parse_http_date(d);
	SIM_CHECK(t >= 0, "date-format", "request %d: Date '%s'", p.id, hex(d).c_str());
	if (check_date) {
		// the wall clock of some moment within the last half second must have shown this second
		i64 from = p.wrote_at - 501 * MS - p.lag, hi = p.wrote_end ? p.wrote_end : now();
		bool ok = false;
		i64 off = wall() - now();
		auto within = [&](i64 a, i64 b, i64 o) {  // monotonic interval with wall offset o
			return a <= b && t >= (a + o) / SEC && t <= (b + o) / SEC;
		};
		for (size_t i = jumps.size(); i-- > 0 && hi >= from;) {
			if (jumps[i].first <= hi) {
				ok = ok || within(std::max(from, jumps[i].first), hi, off);
				hi = jumps[i].first;
			}
			off = jumps[i].second;
		}
		if (hi >= from)
			ok = ok || within(from, hi, off);
		SIM_CHECK(ok, "date-stale", "request %d: Date '%s' (%lld), written %.3f s ago, the wall clock is %.3f now", p.id, d.c_str(), (long long)t, (now() - p.wrote_at) / 1e9, wall() / 1e9);
	}
}
void Cl::start() {
	r = raw_connect(w->port, range(0, 200) * MS * (choose(2)));
	r->on_event = [this] { event(); };
	parser.reset(new Parser());
}
void Cl::more() {
	if (!r->connected || broken || close_done || half_sent)
		return;
	while (sent < plans.size() && sent - answered < depth) {
		if (leaves && int(sent) >= vanish_after) {
			end(int(choose(3)));
			return;
		}
		Plan &p = *plans[sent];
		if (sent > answered)
			w->pipelined++;
		sent++;
		p.part = SENT;
		wire += p.wire.size();
		p.wire_end = wire;
		ev("send", id, p.id, i64(p.wire.size()));
		note("request %d: %s", p.id, hex(p.wire, 600).c_str());
		if (p.held)
			after(range(0, 1000) * MS, [this] { end(int(choose(3))); });
		if (p.wire.size() > 1 && choose(3) == 0) {  // in two parts
			size_t k = choose(3) == 0 ? p.wire.size() - 1 : size_t(range(1, i64(p.wire.size()) - 1));
			r->send(p.wire.substr(0, k));
			std::string rest = p.wire.substr(k);
			auto keep = r;
			half_sent = true;
			after(range(0, 30) * MS, [this, rest, keep] {
				half_sent = false;
				if (broken)
					return;
				keep->send(rest);
				if (think)
					after(range(0, think), [this] { more(); });
				else
					more();
			});
			return;
		}
		r->send(p.wire);
	}
}
void Cl::end(int how) {
	if (broken)
		return;
	ev("leave", id, how);
	broken = true;
	broken_at = now();
	if (!r->connected)
		r->close();
	else if (how == 0)
		r->fin();
	else if (how == 1)
		r->close();
	else {
		dead_reset = true;
		count_fault(F_PEER_RESET);
		r->reset();
	}
}
void Cl::consume() {
	while (parsed_pos < r->in.size()) {
		if (answered >= plans.size() || plans[answered]->part == NOT_SENT || plans[answered]->part == SENT)
			if (!broken)
				fail("invented-response", "client %d: %zu bytes that answer nothing: %s", id, r->in.size() - parsed_pos, hex(r->in.substr(parsed_pos)).c_str());
		if (close_done)
			fail("after-close", "client %d: bytes after the response that closes the connection: %s", id, hex(r->in.substr(parsed_pos)).c_str());
		if (answered >= plans.size())
			return;
		if (!parser->feed(r->in, parsed_pos))
			fail("malformed", "client %d, response to request %d: %s", id, plans[answered]->id, parser->err.c_str());
		// prefix of the body is already checkable
		Plan &p = *plans[answered];
		if (parser->st != Parser::DONE)
			return;
		Msg m = std::move(parser->m);
		parser.reset(new Parser());
		SIM_CHECK(p.part == RESPONDED || broken, "early-response", "client %d: response to request %d is complete before the handler finished it", id, p.id);
		w->verify(p, m);
		p.received = true;
		answered++;
		answered_at = now();
		ev("answered", id, p.id);
		if (!p.keep)
			close_done = true;
	}
}
void Cl::event() {
	if (r->connect_failed)
		harness_error("client refused");
	if (!r->connected)
		return;
	if (!broken)
		consume();
	if ((r->got_fin || r->got_rst) && r->reading && !broken && !close_done)
		fail("dropped", "client %d: the server closed the connection (%s) with %zu of %zu requests answered; got: %s", id, r->got_rst ? "reset" : "end of stream", answered, plans.size(), hex(r->in.substr(r->in.size() > 100 ? r->in.size() - 100 : 0), 300).c_str());
	if (!broken && !close_done) {
		if (leaves && int(answered) >= vanish_after && choose(2)) {
			end(int(choose(3)));
			return;
		}
		if (think && choose(2))
			after(range(0, think), [this] { more(); });
		else
			more();
	}
	if (hangs_up && !finished && !broken && !close_done && answered == plans.size()) {
		finished = true;
		after(range(0, 500) * MS, [this] { end(int(choose(3))); });
	}
	if (close_done && r->got_fin && r->reading && !finished) {
		finished = true;
		if (choose(3) == 0)
			after(range(0, 100) * MS, [this] { r->close(); });
		else
			r->close();
	}
}
// a connection must not wait in the queue for a second while there is room for it
void watch_backlog(World &w, u64 last, int since) {
	u64 total = accepted_total(w.port);
	bool room = listen_backlog(w.port) > 0 && established_count(w.port) < int(w.maxconn);
	since = room && total == last ? since + 1 : 0;
	SIM_CHECK(since < 20, "not-accepted", "%zu connections wait although only %d of %zu are taken", listen_backlog(w.port), established_count(w.port), w.maxconn);
	after(50 * MS, [&w, total, since] { watch_backlog(w, total, since); });
}
void make_world(World &w, int clients, int maxreq) {
	w.small = sane_net() || cfg.rcvbuf < 600 || cfg.sndbuf < 600;
	w.max_body = cfg.rcvbuf < 64 || cfg.sndbuf < 64 ? 600 : w.small ? 5000 : 150000;
	w.huge = !w.small && !w.check_limit && cfg.seg_mode < 2 && cfg.rcvbuf >= 30000 && choose(12) == 0;
	crab::http::Server::Settings st;
	if (w.maxconn < 1000)
		st.max_connections = w.maxconn;
	w.server.reset(new ch::Server(addr(w.port), st));
	w.server->r_handler = [&w](ch::Client *who, ch::Request &&req) { w.handle(who, std::move(req)); };
	w.driver.reset(new crab::Timer([&w] { w.drive(); }));
	for (int i = 0; i < clients; i++) {
		std::unique_ptr<Cl> c(new Cl);
		c->w = &w;
		c->id = i;
		int n = 1 + int(choose(u32(maxreq)));
		for (int k = 0; k < n; k++) {
			std::unique_ptr<Plan> p(new Plan);
			p->c = c.get();
			w.make_request(*p, k + 1 == n);
			w.make_response(*p);
			bool keep = p->keep;
			c->plans.push_back(std::move(p));
			if (!keep)
				break;
		}
		static const u32 depths[] = {1, 2, 5, 100};
		c->depth = depths[choose(4)];
		c->think = choose(3) == 0 ? range(0, 200) * MS : 0;
		c->leaves = w.leavers && choose(2);
		c->hangs_up = w.leavers;
		if (w.leavers) {
			c->depth = 1;  // a disconnect behind unread requests is noticed only when those are read
			for (auto &p : c->plans)
				p->held = p->mode == POSTPONED && choose(4) == 0;
		}
		c->vanish_after = int(choose(u32(n) + 1));
		w.cls.push_back(std::move(c));
	}
	for (auto &c : w.cls) {
		c->start();
		if (choose(4) == 0) {  // slow reader
			Cl *cc = c.get();
			int rounds = 1 + int(choose(3));
			i64 t = 0;
			for (int k = 0; k < rounds; k++) {
				t += range(0, 500) * MS;
				after(t, [cc] {
					if (!cc->broken)
						cc->r->set_reading(false);
				});
				t += range(1, 800) * MS;
				after(t, [cc] {
					cc->r->set_reading(true);
					cc->event();
				});
			}
		}
	}
	w.driver->once(0.01);
	if (w.check_limit) {
		on_epoll_enter = [&w](int, int) {
			int n = established_count(w.port);
			SIM_CHECK(n <= int(w.maxconn) + 1, "limit", "%d connections accepted, max_connections is %zu", n, w.maxconn);
		};
		watch_backlog(w, 0, 0);
	}
}
bool all_done(World &w) {
	for (auto &c : w.cls) {
		if (!c->done())
			return false;
		if (c->close_done && !c->r->got_fin && !c->r->got_rst && !c->broken)
			return false;
	}
	return true;
}
void check_all_answered(World &w, const char *cls) {
	for (auto &c : w.cls) {
		if (c->broken)
			continue;
		if (!c->done()) {
			Plan &p = *c->plans[c->answered];
			static const char *where[] = {"not sent", "sent and not handed to the handler", "handed over and not answered by the handler", "answered by the handler"};
			fail(cls, "client %d: request %d (%s) has no complete response; %zu sent, %zu handed, %zu answered of %zu; server has read %d of %d bytes", c->id, p.id, where[p.part], c->sent, c->handed, c->answered, c->plans.size(), int(c->r->conn ? c->r->peer_read() : 0), int(c->wire));
		}
		if (c->close_done && !c->broken && !(c->r->got_fin || c->r->got_rst))
			fail("no-eof", "client %d: no end of stream after the response that closes the connection", c->id);
	}
}
void finish(World &w) {
	on_epoll_enter = nullptr;
	drop_events();
	w.driver.reset();
	w.server.reset();
	w.cls.clear();
}
void slow_faults() {
	swarm({F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_EPOLL_PARTIAL, F_EPOLL_REORDER, F_SHORT_READ, F_SHORT_WRITE, F_SEND_EAGAIN, F_LATE_WAKE, F_RCV_WINDOW, F_SLOW_HANDLER});
}
}  // namespace

SCENARIO(http_pipeline) {
	slow_faults();
	World w;
	w.modes = {4, 2, 4, 2, 2, 2, 0, 0, 0, 0, 0, 1, 1};
	make_world(w, 1 + int(choose(3)), 8);
	run_until(w.rl, 60 * SEC, [&w] { return all_done(w); });
	stop_faults();
	run_until(w.rl, 120 * SEC, [&w] { return all_done(w); });
	check_all_answered(w, "stalled");
	if (w.pipelined && w.responses > 1)
		nontrivial();
	finish(w);
}
SCENARIO(http_framing) {
	slow_faults();
	World w;
	w.modes = {3, 3, 1, 5, 5, 2, 0, 0, 0, 0, 0, 1, 1};
	make_world(w, 1 + int(choose(2)), 4);
	for (auto &c : w.cls)
		c->depth = 1;  // pipelining is the business of http_pipeline
	run_until(w.rl, 60 * SEC, [&w] { return all_done(w); });
	stop_faults();
	run_until(w.rl, 120 * SEC, [&w] { return all_done(w); });
	check_all_answered(w, "stalled");
	if (w.responses)
		nontrivial();
	finish(w);
}

SCENARIO(http_limits) {
	slow_faults();
	World w;
	w.modes = {3, 1, 4, 2, 2, 2, 0, 0, 0, 0, 0, 1, 0};
	w.maxconn = choose(4) == 0 ? 100000 : 1 + choose(4);
	w.check_limit = w.maxconn < 1000;
	w.leavers = true;
	make_world(w, 1 + int(choose(8)), 4);
	auto settled = [&w] {
		for (auto &c : w.cls)
			if (!c->broken && !(c->close_done && c->finished))
				return false;
		return w.live.empty() && established_count(w.port) == 0;
	};
	run_until(w.rl, 120 * SEC, settled);
	stop_faults();
	run_until(w.rl, 240 * SEC, settled);
	check_all_answered(w, "stalled");
	for (auto p : w.live)
		if (p->c->broken)
			fail("not-notified", "request %d: the client is gone for %.3f s and the %s was not told", p->id, (now() - p->c->broken_at) / 1e9, p->postponed ? "postponed response" : "stream");
	for (auto &c : w.cls)
		if (!c->broken && !(c->close_done && c->finished))
			fail("stalled", "client %d does not come to its end", c->id);
	if (established_count(w.port))
		fail("not-closed", "%d connections are kept although all clients are gone", established_count(w.port));
	if (w.notified)
		PROBE("disconnect_notified");
	if (w.notified || (w.check_limit && w.cls.size() > w.maxconn))
		nontrivial();
	finish(w);
}
SCENARIO(http_throw) {
	slow_faults();
	World w;
	w.modes = {2, 1, 2, 1, 1, 1, 4, 4, 3, 3, 3, 0, 0};
	make_world(w, 1 + int(choose(3)), 8);
	run_until(w.rl, 60 * SEC, [&w] { return all_done(w); });
	stop_faults();
	run_until(w.rl, 120 * SEC, [&w] { return all_done(w); });
	check_all_answered(w, "stalled");
	if (w.throws)
		nontrivial();
	finish(w);
}
namespace {
std::vector<World *> date_worlds;
void jump_later(i64 horizon) {
	after(range(0, horizon), [horizon] {
		i64 d;
		switch (choose(4)) {
		case 0: d = range(1, 3000) * MS; break;
		case 1: d = -range(1, 3000) * MS; break;
		case 2: d = range(1, 400 * 86400) * SEC; break;
		default: d = -range(1, 400 * 86400) * SEC; break;
		}
		if (wall() + d < 86400 * SEC)
			return;
		count_fault(F_CLOCK_JUMP);
		for (auto w : date_worlds)
			w->jumps.emplace_back(now(), wall() - now());
		wall_jump(d);
		ev("jump", d / MS);
		jump_later(horizon);
	});
}
}  // namespace
SCENARIO(http_date) {
	swarm({F_EPOLL_EINTR, F_EPOLL_SPURIOUS, F_EPOLL_PARTIAL, F_SHORT_READ, F_SHORT_WRITE, F_SEND_EAGAIN, F_LATE_WAKE, F_SLOW_HANDLER});
	date_worlds.clear();
	int threads = int(choose(3));
	bool jumps = choose(3) != 0;
	int finished = 0;
	bool ready = false;
	auto one = [&](World &w, int port) {
		w.port = port;
		w.check_date = true;
		w.modes = {4, 1, 2, 1, 1, 0, 1, 1, 0, 0, 0, 1, 1};
		w.max_body = 2000;
		make_world(w, 1 + int(choose(2)), 8);
		w.max_body = 2000;
		for (auto &c : w.cls)
			c->think = range(0, 3000) * MS;
		date_worlds.push_back(&w);
	};
	std::vector<World *> others;
	for (int i = 0; i < threads; i++)
		spawn([&, i] {
			World w;
			others.push_back(&w);
			one(w, 81 + i);
			w.rl.run();
			check_all_answered(w, "stalled");
			if (w.responses)
				nontrivial();
			date_worlds.erase(std::find(date_worlds.begin(), date_worlds.end(), &w));
			w.driver.reset();
			w.server.reset();
			finished++;
		});
	(void)ready;
	{
		World w;
		one(w, 80);
		if (jumps)
			jump_later(range(100, 5000) * MS);
		auto done = [&] {
			if (int(others.size()) < threads || int(date_worlds.size()) < threads + 1)
				return false;
			for (auto o : date_worlds)
				if (!all_done(*o))
					return false;
			return true;
		};
		run_until(w.rl, 60 * SEC, done);
		stop_faults();
		run_until(w.rl, 120 * SEC, done);
		check_all_answered(w, "stalled");
		drop_events();
		for (auto o : others)
			o->rl.cancel();
		join_all();
		if (w.responses)
			nontrivial();
		date_worlds.clear();
		finish(w);
	}
}
