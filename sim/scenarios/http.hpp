// Independent HTTP and WebSocket codecs for the scripted peers.
#pragma once
#include "common.hpp"
#include <ctype.h>

namespace hx {
inline std::string lower(std::string s) {
	for (auto &c : s)
		if (c >= 'A' && c <= 'Z')
			c = char(c + 32);
	return s;
}
inline std::string rnd_case(std::string s) {
	int mode = int(choose(3));
	for (auto &c : s)
		if (mode && c >= 'a' && c <= 'z' && (mode == 1 || choose(2)))
			c = char(c - 32);
	return s;
}
inline std::string token(u32 key, size_t n) {
	static const char set[] = "abcdefghijklmnopqrstuvwxyz0123456789-_";
	std::string s(n, 0);
	for (size_t i = 0; i < n; i++)
		s[i] = set[pat_byte(key, i) % (i ? 38 : 26)];
	return s;
}
inline std::string value(u32 key, size_t n) {  // header value: no controls, no blank at the ends
	std::string s(n, 0);
	for (size_t i = 0; i < n; i++) {
		u8 b = pat_byte(key, i);
		s[i] = b < 32 || b == 127 ? 'v' : char(b);
		if ((i == 0 || i + 1 == n) && s[i] == ' ')
			s[i] = 'x';
	}
	return s;
}
struct Msg {  // a parsed HTTP response (or request) as seen by a peer
	std::string start;
	int status = 0;
	int major = 0, minor = 0;
	std::string status_text;
	std::vector<std::pair<std::string, std::string>> headers;  // names lower-case
	std::string body;
	bool chunked = false;
	bool has_cl = false;
	u64 cl = 0;
	int count(const char *name) const {
		int n = 0;
		for (auto &h : headers)
			n += h.first == name;
		return n;
	}
	std::string get(const char *name) const {
		for (auto &h : headers)
			if (h.first == name)
				return h.second;
		return std::string();
	}
};
// Strict incremental parser. Returns false and sets err on malformed input.
struct Parser {
	enum St { START, HEAD, BODY, CSIZE, CDATA, CEND, TRAIL, DONE } st = START;
	Msg m;
	std::string line, err;
	u64 left = 0;
	bool request = false;
	bool no_body_101 = true;
	bool bad(const std::string &e) {
		err = e;
		return false;
	}
	static std::string trim(std::string s) {
		while (!s.empty() && (s.front() == ' ' || s.front() == '\t'))
			s.erase(0, 1);
		while (!s.empty() && (s.back() == ' ' || s.back() == '\t'))
			s.pop_back();
		return s;
	}
	bool start_line(const std::string &l) {
		m.start = l;
		if (request)
			return true;
		if (l.size() < 12 || l.compare(0, 5, "HTTP/") != 0 || !isdigit(l[5]) || l[6] != '.' || !isdigit(l[7]) || l[8] != ' ' || !isdigit(l[9]) || !isdigit(l[10]) || !isdigit(l[11]))
			return bad("bad status line '" + hex(l) + "'");
		m.major = l[5] - '0';
		m.minor = l[7] - '0';
		m.status = (l[9] - '0') * 100 + (l[10] - '0') * 10 + (l[11] - '0');
		if (l.size() > 12) {
			if (l[12] != ' ')
				return bad("bad status line '" + hex(l) + "'");
			m.status_text = l.substr(13);
		}
		return true;
	}
	bool header_line(const std::string &l) {
		size_t p = l.find(':');
		if (p == std::string::npos || p == 0)
			return bad("bad header line '" + hex(l) + "'");
		m.headers.emplace_back(lower(l.substr(0, p)), trim(l.substr(p + 1)));
		return true;
	}
	bool head_done() {
		for (auto &h : m.headers) {
			if (h.first == "content-length") {
				if (m.has_cl)
					return bad("two content-length headers");
				m.has_cl = true;
				if (h.second.empty() || h.second.size() > 18)
					return bad("bad content-length");
				for (char c : h.second) {
					if (!isdigit(c))
						return bad("bad content-length");
					m.cl = m.cl * 10 + u64(c - '0');
				}
			}
			if (h.first == "transfer-encoding") {
				if (lower(h.second) != "chunked")
					return bad("unexpected transfer-encoding");
				m.chunked = true;
			}
		}
		if (m.has_cl && m.chunked)
			return bad("both content-length and chunked");
		if (!request && m.status == 101) {
			if (m.has_cl || m.chunked)
				return bad("upgrade with a body");
			st = DONE;
			return true;
		}
		if (!request && !m.has_cl && !m.chunked)
			return bad("no framing");
		if (m.chunked)
			st = CSIZE;
		else {
			left = m.cl;
			st = left ? BODY : DONE;
		}
		return true;
	}
	// consumes from d starting at pos until the message is complete
	bool feed(const std::string &d, size_t &pos) {
		while (pos < d.size() && st != DONE) {
			if (st == BODY || st == CDATA) {
				size_t n = size_t(std::min<u64>(left, d.size() - pos));
				m.body.append(d, pos, n);
				pos += n;
				left -= n;
				if (left == 0)
					st = st == BODY ? DONE : CEND;
				continue;
			}
			char c = d[pos++];
			if (c != '\n') {
				line.push_back(c);
				if (line.size() > 20000)
					return bad("endless line");
				continue;
			}
			if (line.empty() || line.back() != '\r')
				return bad("bare newline");
			line.pop_back();
			std::string l;
			l.swap(line);
			switch (st) {
			case START:
				if (!start_line(l))
					return false;
				st = HEAD;
				break;
			case HEAD:
				if (!l.empty()) {
					if (!header_line(l))
						return false;
				} else if (!head_done())
					return false;
				break;
			case CSIZE: {
				if (l.empty() || l.size() > 16)
					return bad("bad chunk size line '" + hex(l) + "'");
				left = 0;
				for (char ch : l) {
					if (!isxdigit(ch))
						return bad("bad chunk size line '" + hex(l) + "'");
					left = left * 16 + u64(isdigit(ch) ? ch - '0' : (ch | 32) - 'a' + 10);
				}
				st = left ? CDATA : TRAIL;
				break;
			}
			case CEND:
				if (!l.empty())
					return bad("no newline after a chunk");
				st = CSIZE;
				break;
			case TRAIL:
				if (!l.empty())
					return bad("unexpected trailer");
				st = DONE;
				break;
			default: return bad("state");
			}
		}
		return true;
	}
};
// "Sun, 06 Nov 1994 08:49:37 GMT" -> seconds, -1 when malformed
inline i64 parse_http_date(const std::string &s) {
	static const char *days[] = {"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"};
	static const char *mons[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
	char wd[4] = {}, mo[4] = {};
	int d, y, h, mi, se, n = 0;
	if (s.size() != 29 || sscanf(s.c_str(), "%3s, %2d %3s %4d %2d:%2d:%2d GMT%n", wd, &d, mo, &y, &h, &mi, &se, &n) != 7 || n != 29)
		return -1;
	if (wd[3] || s[3] != ',' || !isdigit(s[5]) || !isdigit(s[17]) || !isdigit(s[20]) || !isdigit(s[23]))
		return -1;
	int m = -1;
	for (int i = 0; i < 12; i++)
		if (!strcmp(mo, mons[i]))
			m = i;
	if (m < 0 || h > 23 || mi > 59 || se > 60 || d < 1 || d > 31)
		return -1;
	// days since the epoch (civil)
	i64 yy = m < 2 ? y - 1 : y;
	i64 era = (yy >= 0 ? yy : yy - 399) / 400;
	i64 yoe = yy - era * 400;
	i64 mm = (m + 10) % 12;
	i64 doy = (153 * mm + 2) / 5 + d - 1;
	i64 doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	i64 dayn = era * 146097 + doe - 719468;
	if (strcmp(wd, days[((dayn % 7) + 7) % 7]))
		return -1;
	return dayn * 86400 + h * 3600 + mi * 60 + se;
}
// ---------------------------------------------------------------- WebSocket frames
struct Frame {
	bool fin = true;
	int opcode = 1, rsv = 0;
	bool masked = false;
	u32 mask = 0;
	std::string payload;
};
inline std::string encode(const Frame &f, int force_len = 0) {  // force_len 2 or 8: longer length field than needed
	std::string r;
	r.push_back(char((f.fin ? 0x80 : 0) | (f.rsv << 4) | f.opcode));
	u64 n = f.payload.size();
	int m = f.masked ? 0x80 : 0;
	if (n < 126 && !force_len)
		r.push_back(char(m | int(n)));
	else if (n < 65536 && force_len != 8) {
		r.push_back(char(m | 126));
		r.push_back(char(n >> 8));
		r.push_back(char(n));
	} else {
		r.push_back(char(m | 127));
		for (int i = 7; i >= 0; i--)
			r.push_back(char(n >> (8 * i)));
	}
	u8 k[4] = {u8(f.mask >> 24), u8(f.mask >> 16), u8(f.mask >> 8), u8(f.mask)};
	if (f.masked)
		r.append(reinterpret_cast<char *>(k), 4);
	size_t base = r.size();
	r += f.payload;
	if (f.masked)
		for (size_t i = 0; i < n; i++)
			r[base + i] = char(r[base + i] ^ k[i % 4]);
	return r;
}
// 1: a frame was taken from d at pos, 0: more bytes needed
inline int decode(const std::string &d, size_t &pos, Frame &f) {
	size_t p = pos;
	if (d.size() - p < 2)
		return 0;
	u8 b0 = u8(d[p]), b1 = u8(d[p + 1]);
	p += 2;
	f.fin = b0 & 0x80;
	f.rsv = (b0 >> 4) & 7;
	f.opcode = b0 & 15;
	f.masked = b1 & 0x80;
	u64 n = b1 & 127;
	if (n >= 126) {
		size_t w = n == 126 ? 2 : 8;
		if (d.size() - p < w)
			return 0;
		n = 0;
		for (size_t i = 0; i < w; i++)
			n = (n << 8) + u8(d[p + i]);
		p += w;
	}
	u8 k[4] = {};
	f.mask = 0;
	if (f.masked) {
		if (d.size() - p < 4)
			return 0;
		for (int i = 0; i < 4; i++) {
			k[i] = u8(d[p + i]);
			f.mask = (f.mask << 8) | k[i];
		}
		p += 4;
	}
	if (d.size() - p < n)
		return 0;
	f.payload.assign(d, p, size_t(n));
	if (f.masked)
		for (size_t i = 0; i < n; i++)
			f.payload[i] = char(f.payload[i] ^ k[i % 4]);
	pos = p + size_t(n);
	return 1;
}
inline std::string utf8_text(u32 key, size_t n) {  // valid UTF-8 of exactly n bytes
	static const char *seq[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\xa6\x80", "\xd0\x9a"};
	std::string s;
	u64 i = 0;
	while (s.size() < n) {
		u8 b = pat_byte(key, i++);
		if (b < 40) {
			std::string q = seq[b % 4];
			if (s.size() + q.size() <= n) {
				s += q;
				continue;
			}
		}
		s.push_back(char('a' + b % 26));
	}
	return s;
}
// ---------------------------------------------------------------- SHA-1 and base64, for Sec-WebSocket-Accept
inline std::string sha1(const std::string &in) {
	std::string m = in;
	u64 bits = u64(m.size()) * 8;
	m.push_back(char(0x80));
	while (m.size() % 64 != 56)
		m.push_back(0);
	for (int i = 7; i >= 0; i--)
		m.push_back(char(bits >> (8 * i)));
	u32 h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
	auto r = [](u32 x, int n) { return (x << n) | (x >> (32 - n)); };
	for (size_t b = 0; b < m.size(); b += 64) {
		u32 w[80];
		for (int i = 0; i < 16; i++)
			w[i] = (u32(u8(m[b + i * 4])) << 24) | (u32(u8(m[b + i * 4 + 1])) << 16) | (u32(u8(m[b + i * 4 + 2])) << 8) | u8(m[b + i * 4 + 3]);
		for (int i = 16; i < 80; i++)
			w[i] = r(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		u32 a = h[0], bb = h[1], c = h[2], d = h[3], e = h[4];
		for (int i = 0; i < 80; i++) {
			u32 f, k;
			if (i < 20)
				f = (bb & c) | (~bb & d), k = 0x5A827999;
			else if (i < 40)
				f = bb ^ c ^ d, k = 0x6ED9EBA1;
			else if (i < 60)
				f = (bb & c) | (bb & d) | (c & d), k = 0x8F1BBCDC;
			else
				f = bb ^ c ^ d, k = 0xCA62C1D6;
			u32 t = r(a, 5) + f + e + k + w[i];
			e = d, d = c, c = r(bb, 30), bb = a, a = t;
		}
		h[0] += a, h[1] += bb, h[2] += c, h[3] += d, h[4] += e;
	}
	std::string o;
	for (u32 x : h)
		for (int i = 3; i >= 0; i--)
			o.push_back(char(x >> (8 * i)));
	return o;
}
inline std::string b64(const std::string &s) {
	static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	for (size_t i = 0; i < s.size(); i += 3) {
		u32 v = u32(u8(s[i])) << 16;
		if (i + 1 < s.size())
			v |= u32(u8(s[i + 1])) << 8;
		if (i + 2 < s.size())
			v |= u8(s[i + 2]);
		o.push_back(t[v >> 18]);
		o.push_back(t[(v >> 12) & 63]);
		o.push_back(i + 1 < s.size() ? t[(v >> 6) & 63] : '=');
		o.push_back(i + 2 < s.size() ? t[v & 63] : '=');
	}
	return o;
}
inline std::string ws_accept(const std::string &key) { return b64(sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }
// ---------------------------------------------------------------- random damage
inline std::string mutate(u32 key, std::string s) {
	for (u32 i = 1 + choose(4); i; i--) {
		if (s.empty())
			break;
		size_t a = choose(u32(s.size())), b = choose(u32(s.size()));
		switch (choose(9)) {
		case 0: s[a] = char(s[a] ^ (1 << choose(8))); break;
		case 1: s[a] = char(choose(256)); break;
		case 2: s.insert(a, 1, char(choose(256))); break;
		case 3: s.erase(a, 1 + choose(3)); break;
		case 4: s.erase(std::min(a, b), choose(2) ? std::max(a, b) - std::min(a, b) : choose(40)); break;
		case 5: s.insert(b, s.substr(a, size_log(1, 200))); break;
		case 6: {  // other digits
			size_t q = s.find_first_of("0123456789", a);
			if (q != std::string::npos)
				s[q] = char('0' + choose(10));
			break;
		}
		case 7: {
			static const char *bits[] = {"\r\n", "\r\n\r\n", "\n", "\r", ":", ";", " ", "\t", ",", "%", "%00", "?", "#", "0\r\n\r\n", "ffffffffffffffff", "18446744073709551615", "-1", "content-length: 5\r\n", "transfer-encoding: chunked\r\n", "connection: upgrade\r\n", "upgrade: websocket\r\n", "expect: 100-continue\r\n", "\x7f\xff\xff\xff", "connection: close\r\n"};
			s.insert(a, bits[choose(24)]);
			break;
		}
		case 8: s.insert(a, pat(key, 0, size_log(1, 9000))); break;
		}
	}
	return s;
}
// ---------------------------------------------------------------- slow networks move little
inline bool sane_net() {  // true when the network is slow; one network for all threads of a run
	static bool once = false, slow = false;
	if (once)
		return slow;
	once = true;
	random_net_config();
	if (cfg.net_lat_max > 3 * MS) {
		cfg.seg_mode = 0;
		cfg.sndbuf = std::max<size_t>(cfg.sndbuf, 4096);
		cfg.rcvbuf = std::max<size_t>(cfg.rcvbuf, 4096);
		slow = true;
	}
	return slow;
}
}  // namespace hx
using namespace hx;
