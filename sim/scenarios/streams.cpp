// C15: streams and buffers between flaky sources and sinks, against plain strings.
#include "common.hpp"

namespace {
struct Broken {};  // thrown by a source or sink
struct Source : crab::IStream {
	u32 key = 0;
	u64 pos = 0, end = 0;
	bool stalled = false, threw = false;  // in the current operation
	size_t read_some(uint8_t *val, size_t count) override {
		size_t n = std::min<u64>(count, end - pos);
		if (n > 0 && fault(F_SEND_EAGAIN)) {
			stalled = true;
			n = 0;
		}
		if (n > 0 && fault(F_PEER_RESET)) {
			threw = true;
			throw Broken{};
		}
		if (n > 1 && fault(F_SHORT_READ))
			n = size_t(range(1, i64(n)));
		for (size_t i = 0; i < n; i++)
			val[i] = pat_byte(key, pos + i);
		pos += n;
		return n;
	}
	using crab::IStream::read_some;
};
struct Sink : crab::OStream {
	std::string got;
	size_t limit = SIZE_MAX;
	bool refused = false, threw = false;
	size_t write_some(const uint8_t *val, size_t count) override {
		size_t n = std::min(count, limit - got.size());
		if (n < count && n == 0)
			refused = true;
		if (n > 0 && fault(F_SEND_EAGAIN)) {
			refused = true;
			n = 0;
		}
		if (n > 0 && fault(F_PEER_RESET)) {
			threw = true;
			throw Broken{};
		}
		if (n > 1 && fault(F_SHORT_WRITE))
			n = size_t(range(1, i64(n)));
		got.append(reinterpret_cast<const char *>(val), n);
		return n;
	}
	using crab::OStream::write_some;
};
enum Kind { BUFFER, MEM, VEC, STR, COMB, OMEM };
const char *kind_names[] = {"Buffer", "IMemoryStream", "VectorStream", "StringStream", "CombinedIStream", "OMemoryStream"};
struct Slot {
	Kind kind;
	int id = 0;
	std::string model;  // bytes still to be read, in order
	std::unique_ptr<crab::IFiniteStream> in;
	crab::OStream *out = nullptr;
	crab::Buffer *buf = nullptr;
	crab::VectorStream *vec = nullptr;
	crab::StringStream *str = nullptr;
	std::vector<std::unique_ptr<uint8_t[]>> store;  // for memory streams, exactly sized
	size_t room() const { return buf ? buf->capacity() - model.size() : SIZE_MAX; }
};
struct World {
	std::vector<Slot> slots;
	Source src;
	u32 key = 1;
	u64 moved = 0;
	std::string fresh(size_t n) {
		key++;
		return pat(key, 0, n);
	}
	size_t some() {
		static const size_t typical[] = {0, 1, 2, 3, 7, 8, 15, 16, 17, 64, 100, 255};
		return choose(3) == 0 ? typical[choose(12)] : size_log(1, 300);
	}
	std::unique_ptr<crab::IFiniteStream> leaf(Slot &s, std::string &content, int depth) {
		content = fresh(choose(4) == 0 ? 0 : some());
		switch (choose(depth > 0 ? 5 : 4)) {
		case 0: {
			s.store.emplace_back(new uint8_t[content.size()]);
			memcpy(s.store.back().get(), content.data(), content.size());
			return std::unique_ptr<crab::IFiniteStream>(new crab::IMemoryStream(s.store.back().get(), content.size()));
		}
		case 1: return std::unique_ptr<crab::IFiniteStream>(new crab::VectorStream(crab::bdata(content.begin(), content.end())));
		case 2: return std::unique_ptr<crab::IFiniteStream>(new crab::StringStream(content));
		case 3: {
			auto b = new crab::Buffer(content.size() + choose(5));
			std::unique_ptr<crab::IFiniteStream> r(b);
			size_t skew = b->capacity() ? choose(u32(b->capacity())) : 0;  // wrapped content
			if (skew) {
				std::string junk(skew, '?');
				b->write(junk.data(), skew);
				size_t keep = std::min<size_t>(1, skew - 1);
				std::string back(skew - keep, 0);
				b->read(&back[0], back.size());
				if (keep) {
					if (b->capacity() - keep < content.size()) {
						b->did_read(keep);
						b->write(content.data(), content.size());
						return r;
					}
					b->write(content.data(), content.size());
					char c;
					b->read(&c, 1);
					return r;
				}
			}
			b->write(content.data(), content.size());
			return r;
		}
		default: {
			std::string c2, c1;
			auto a = leaf(s, c1, depth - 1);
			auto b = leaf(s, c2, depth - 1);
			content = c1 + c2;
			return std::unique_ptr<crab::IFiniteStream>(new crab::CombinedIStream(std::move(a), std::move(b)));
		}
		}
	}
	void make(Slot &s) {
		s.out = nullptr;
		s.buf = nullptr;
		s.vec = nullptr;
		s.str = nullptr;
		s.in.reset();
		s.store.clear();
		s.model.clear();
		s.kind = Kind(choose(5));
		switch (s.kind) {
		case BUFFER:
			s.buf = new crab::Buffer(choose(12) == 0 ? 0 : some());
			s.in.reset(s.buf);
			s.out = s.buf;
			break;
		case MEM: {
			if (choose(10) == 0) {
				s.in.reset(new crab::IMemoryStream());
				break;
			}
			s.model = fresh(some());
			s.store.emplace_back(new uint8_t[s.model.size()]);
			memcpy(s.store.back().get(), s.model.data(), s.model.size());
			s.in.reset(new crab::IMemoryStream(s.store.back().get(), s.model.size()));
			break;
		}
		case VEC:
			if (choose(2)) {
				s.model = fresh(some());
				s.vec = new crab::VectorStream(crab::bdata(s.model.begin(), s.model.end()));
			} else
				s.vec = new crab::VectorStream();
			s.in.reset(s.vec);
			s.out = s.vec;
			break;
		case STR:
			if (choose(2)) {
				s.model = fresh(some());
				s.str = new crab::StringStream(s.model);
			} else
				s.str = new crab::StringStream();
			s.in.reset(s.str);
			s.out = s.str;
			break;
		default: {
			std::string c1, c2;
			auto a = leaf(s, c1, 1);
			auto b = leaf(s, c2, 1);
			s.model = c1 + c2;
			s.in.reset(new crab::CombinedIStream(std::move(a), std::move(b)));
		}
		}
		ev("make", s.id, s.kind, i64(s.model.size()));
	}
	void check(Slot &s, const char *op) {
		SIM_CHECK(s.in->size() == s.model.size(), "size", "%s %d after %s: size() is %zu, %zu bytes are still to be read", kind_names[s.kind], s.id, op, s.in->size(), s.model.size());
		SIM_CHECK(s.in->empty() == s.model.empty(), "size", "%s %d after %s: empty()", kind_names[s.kind], s.id, op);
		if (s.buf) {
			crab::Buffer &b = *s.buf;
			SIM_CHECK(b.read_count() + b.read_count2() == s.model.size(), "parts", "Buffer after %s: parts %zu + %zu, holds %zu", op, b.read_count(), b.read_count2(), s.model.size());
			SIM_CHECK(b.write_count() + b.write_count2() == b.capacity() - s.model.size(), "parts", "Buffer after %s: free parts %zu + %zu, free %zu", op, b.write_count(), b.write_count2(), b.capacity() - s.model.size());
			SIM_CHECK(b.full() == (s.model.size() == b.capacity()), "full", "Buffer after %s: full()=%d with %zu of %zu", op, int(b.full()), s.model.size(), b.capacity());
			SIM_CHECK(s.model.empty() || b.read_count() > 0, "parts", "Buffer after %s: nothing to read in the first part", op);
			std::string c(reinterpret_cast<const char *>(b.read_ptr()), b.read_count());
			if (b.read_count2())
				c.append(reinterpret_cast<const char *>(b.read_ptr2()), b.read_count2());
			SIM_CHECK(c == s.model, "bytes", "Buffer after %s: content differs at %zu of %zu", op, diff_at(c, s.model), s.model.size());
		}
	}
	void expect_prefix(Slot &s, const char *got, size_t n, const char *op) {
		SIM_CHECK(n <= s.model.size(), "invented", "%s %d: %s gave %zu bytes, held %zu", kind_names[s.kind], s.id, op, n, s.model.size());
		SIM_CHECK(memcmp(got, s.model.data(), n) == 0, "bytes", "%s %d: %s gave wrong bytes (%s instead of %s)", kind_names[s.kind], s.id, op, hex(std::string(got, n)).c_str(), hex(s.model.substr(0, n)).c_str());
		s.model.erase(0, n);
		moved += n;
	}
	void op_read_some(Slot &s) {
		size_t n = some();
		std::unique_ptr<char[]> v(new char[n]);
		size_t rc = s.in->read_some(reinterpret_cast<uint8_t *>(v.get()), n);
		ev("read_some", s.id, i64(n), i64(rc));
		SIM_CHECK(rc <= n, "count", "read_some(%zu) returned %zu", n, rc);
		SIM_CHECK(rc > 0 || n == 0 || s.model.empty(), "no-progress", "%s: read_some(%zu) returned 0 with %zu bytes held", kind_names[s.kind], n, s.model.size());
		expect_prefix(s, v.get(), rc, "read_some");
	}
	void op_read(Slot &s) {
		size_t n = some(), had = s.model.size();
		std::unique_ptr<char[]> v(new char[n]);
		bool threw = false;
		try {
			static_cast<crab::IStream &>(*s.in).read(v.get(), n);
		} catch (const std::exception &) {
			threw = true;
		}
		ev("read", s.id, i64(n), threw);
		SIM_CHECK(threw == (n > had), "fixed-read", "%s: read(%zu) with %zu held %s", kind_names[s.kind], n, had, threw ? "threw" : "did not throw");
		expect_prefix(s, v.get(), std::min(n, had), "read");
	}
	void op_write_some(Slot &s) {
		std::string d = fresh(some());
		size_t rc = choose(2) ? s.out->write_some(d.data(), d.size()) : s.out->write_some(reinterpret_cast<const uint8_t *>(d.data()), d.size());
		ev("write_some", s.id, i64(d.size()), i64(rc));
		SIM_CHECK(rc <= std::min(d.size(), s.room()), "count", "%s: write_some(%zu) returned %zu with room for %zu", kind_names[s.kind], d.size(), rc, s.room());
		SIM_CHECK(rc > 0 || d.empty() || s.room() == 0, "no-progress", "%s: write_some(%zu) returned 0 with room", kind_names[s.kind], d.size());
		s.model.append(d, 0, rc);
		moved += rc;
	}
	void op_write(Slot &s) {
		std::string d = fresh(some());
		size_t room = s.room();
		bool threw = false;
		try {
			if (d.size() == 1 && choose(2))
				s.out->write_byte(uint8_t(d[0]));
			else
				s.out->write(d.data(), d.size());
		} catch (const std::exception &) {
			threw = true;
		}
		ev("write", s.id, i64(d.size()), threw);
		SIM_CHECK(threw == (d.size() > room), "fixed-write", "%s: write(%zu) with room for %zu %s", kind_names[s.kind], d.size(), room, threw ? "threw" : "did not throw");
		s.model.append(d, 0, std::min(d.size(), room));
	}
	size_t max_arg(Slot &s) {
		switch (choose(4)) {
		case 0: return SIZE_MAX;
		case 1: return s.model.size();
		default: return some();
		}
	}
	void op_write_to_sink(Slot &s) {
		Sink sink;
		if (choose(3) == 0)
			sink.limit = some();
		size_t maxc = max_arg(s), rc = 0, want = std::min(maxc, s.model.size());
		bool plain = maxc == SIZE_MAX && choose(2);
		try {
			rc = plain ? s.in->write_to(sink) : s.in->write_to(sink, maxc);
		} catch (const Broken &) {
			rc = sink.got.size();
		}
		ev("write_to", s.id, i64(maxc), i64(rc));
		if (sink.threw)
			PROBE("sink_threw");
		if (sink.refused && rc)
			PROBE("sink_refused_midway");
		SIM_CHECK(rc == sink.got.size(), "count", "%s: write_to(max %zu) returned %zu, the sink got %zu bytes", kind_names[s.kind], maxc, rc, sink.got.size());
		SIM_CHECK(rc <= want, "limit", "%s: write_to(max %zu) moved %zu", kind_names[s.kind], maxc, rc);
		SIM_CHECK(rc == want || sink.refused || sink.threw, "no-progress", "%s: write_to(max %zu) moved %zu of %zu although the sink refused nothing", kind_names[s.kind], maxc, rc, want);
		expect_prefix(s, sink.got.data(), rc, "write_to");
	}
	void op_transfer(Slot &a, Slot &b) {  // stream to stream
		size_t maxc = max_arg(a);
		size_t want = std::min({maxc, a.model.size(), b.room()});
		size_t rc = a.in->write_to(*b.out, maxc);
		ev("transfer", a.id, b.id, i64(rc));
		SIM_CHECK(rc == want, "count", "%s to %s: write_to(max %zu) returned %zu, %zu bytes can move", kind_names[a.kind], kind_names[b.kind], maxc, rc, want);
		b.model.append(a.model, 0, rc);
		a.model.erase(0, rc);
		moved += rc;
		check(a, "write_to stream");
		check(b, "write_to stream");
	}
	void absorb(Slot &s, u64 before, size_t rc, const char *op) {
		u64 n = src.pos - before;
		SIM_CHECK(rc == n, "count", "Buffer::%s took %zu bytes, the source gave %d", op, rc, int(n));
		s.model += pat(src.key, before, size_t(n));
		moved += n;
	}
	void op_read_from(Slot &s) {
		src.stalled = src.threw = false;
		u64 before = src.pos;
		size_t room = s.room(), left = size_t(src.end - src.pos), rc = 0;
		try {
			rc = s.buf->read_from(src);
		} catch (const Broken &) {
			rc = size_t(src.pos - before);
			PROBE("source_threw");
		}
		ev("read_from", s.id, i64(rc));
		SIM_CHECK(rc == std::min(room, left) || src.stalled || src.threw, "no-progress", "Buffer::read_from took %zu, room %zu, source has %zu", rc, room, left);
		absorb(s, before, rc, "read_from");
	}
	void op_read_enough(Slot &s) {
		src.stalled = src.threw = false;
		u64 before = src.pos;
		size_t n = choose(2) ? some() : s.model.size() + choose(4);
		size_t had = s.model.size(), left = size_t(src.end - src.pos);
		bool r = false, threw = false;
		try {
			r = s.buf->read_enough_data(src, n);
		} catch (const Broken &) {
			threw = true;
		}
		ev("read_enough", s.id, i64(n), r);
		absorb(s, before, size_t(src.pos - before), "read_enough_data");
		if (threw)
			return;
		SIM_CHECK(r == (s.model.size() >= n), "enough", "read_enough_data(%zu) returned %d with %zu bytes", n, int(r), s.model.size());
		SIM_CHECK(r || src.stalled || s.buf->capacity() < n || had + left < n, "no-progress", "read_enough_data(%zu): had %zu, source %zu, got %zu", n, had, left, s.model.size());
	}
	void op_read_from_stream(Slot &s, Slot &from) {
		size_t room = s.room(), want = std::min(room, from.model.size());
		if (choose(2)) {
			size_t rc = s.buf->read_from(*from.in);
			SIM_CHECK(rc == want, "count", "Buffer::read_from(%s) returned %zu, %zu can move", kind_names[from.kind], rc, want);
			s.model.append(from.model, 0, rc);
			from.model.erase(0, rc);
		} else {
			size_t n = some(), had = s.model.size(), fh = from.model.size();
			bool r = s.buf->read_enough_data(*from.in, n);
			size_t took = s.buf->size() - had;
			SIM_CHECK(took <= want && from.in->size() == fh - took, "count", "read_enough_data(%zu) added %zu bytes, the source lost %zu", n, took, fh - from.in->size());
			SIM_CHECK(r == (s.buf->size() >= n) && (r || n > had + want), "enough", "read_enough_data(%zu) returned %d: had %zu, could take %zu, took %zu", n, int(r), had, want, took);
			s.model.append(from.model, 0, took);
			from.model.erase(0, took);
		}
		check(s, "read_from stream");
		check(from, "read_from stream");
	}
	void op_peek(Slot &s) {
		size_t n = choose(2) ? some() : size_t(range(0, i64(s.model.size()) + 1));
		std::unique_ptr<uint8_t[]> v(new uint8_t[n]);
		bool r = s.buf->peek(v.get(), n);
		ev("peek", s.id, i64(n), r);
		SIM_CHECK(r == (n <= s.model.size()), "peek", "peek(%zu) returned %d with %zu bytes", n, int(r), s.model.size());
		if (r)
			SIM_CHECK(memcmp(v.get(), s.model.data(), n) == 0, "peek", "peek(%zu) gave wrong bytes", n);
		if (r && n > s.buf->read_count())
			PROBE("peek_both_parts");
	}
	void op_raw_write(Slot &s) {  // fill through the pointers, possibly both parts, possibly take some back
		crab::Buffer &b = *s.buf;
		size_t c1 = b.write_count(), c2 = b.write_count2();
		size_t n = std::min(some(), c1 + (choose(2) ? c2 : 0));
		std::string d = fresh(n);
		memcpy(b.write_ptr(), d.data(), std::min(n, c1));
		if (n > c1) {
			memcpy(b.write_ptr2(), d.data() + c1, n - c1);
			PROBE("did_write_both_parts");
		}
		b.did_write(n);
		s.model += d;
		check(s, "did_write");
		if (choose(2)) {
			size_t u = size_t(range(0, i64(std::min(n, s.model.size()))));
			b.did_write_undo(u);
			s.model.resize(s.model.size() - u);
			ev("undo", s.id, i64(u));
		}
	}
	void op_raw_read(Slot &s) {
		size_t n = std::min(some(), s.model.size());
		if (n > s.buf->read_count())
			PROBE("did_read_both_parts");
		s.buf->did_read(n);
		s.model.erase(0, n);
	}
	void op_change(Slot &s) {  // clear, move, replace
		switch (choose(4)) {
		case 0:
			if (s.buf) {
				if (choose(2))
					s.buf->clear();
				else
					s.buf->clear(some());
				s.model.clear();
			} else if (s.vec) {
				auto all = s.vec->clear();
				std::string a(all.begin(), all.end());
				SIM_CHECK(a.size() >= s.model.size() && a.substr(a.size() - s.model.size()) == s.model, "clear", "VectorStream::clear() lost bytes");
				s.model.clear();
			} else if (s.str) {
				auto a = s.str->clear();
				SIM_CHECK(a.size() >= s.model.size() && a.substr(a.size() - s.model.size()) == s.model, "clear", "StringStream::clear() lost bytes");
				s.model.clear();
			}
			break;
		case 1:  // move construction
			if (s.vec) {
				auto n = new crab::VectorStream(std::move(*s.vec));
				s.in.reset(n);
				s.vec = n;
				s.out = n;
			} else if (s.str) {
				auto n = new crab::StringStream(std::move(*s.str));
				s.in.reset(n);
				s.str = n;
				s.out = n;
			} else if (s.buf) {
				auto n = new crab::Buffer(std::move(*s.buf));
				s.in.reset(n);
				s.buf = n;
				s.out = n;
			}
			PROBE("moved");
			break;
		case 2:  // move assignment onto an object with other content
			if (s.vec) {
				std::string junk = fresh(some());
				auto n = new crab::VectorStream(crab::bdata(junk.begin(), junk.end()));
				char c;
				n->read_some(&c, 1);
				*n = std::move(*s.vec);
				s.in.reset(n);
				s.vec = n;
				s.out = n;
			} else if (s.str) {
				std::string junk = fresh(some());
				auto n = new crab::StringStream(junk);
				char c;
				n->read_some(&c, 1);
				*n = std::move(*s.str);
				s.in.reset(n);
				s.str = n;
				s.out = n;
			}
			break;
		default: make(s);
		}
	}
	void op_omem() {
		size_t cap = some();
		std::unique_ptr<uint8_t[]> store(new uint8_t[cap]);
		crab::OMemoryStream om(store.get(), cap);
		std::string all;
		for (int i = 0; i < 4; i++) {
			std::string d = fresh(some());
			size_t room = cap - all.size();
			switch (choose(3)) {
			case 0: {
				size_t rc = om.write_some(d.data(), d.size());
				SIM_CHECK(rc == std::min(d.size(), room), "count", "OMemoryStream::write_some(%zu) returned %zu with room for %zu", d.size(), rc, room);
				break;
			}
			case 1: {
				bool threw = false;
				try {
					om.write(d.data(), d.size());
				} catch (const std::exception &) {
					threw = true;
				}
				SIM_CHECK(threw == (d.size() > room), "fixed-write", "OMemoryStream::write(%zu) with room for %zu", d.size(), room);
				break;
			}
			default: {
				crab::StringStream ss(d);
				size_t rc = ss.write_to(om);
				SIM_CHECK(rc == std::min(d.size(), room) && ss.size() == d.size() - rc, "count", "StringStream to OMemoryStream moved %zu", rc);
			}
			}
			all.append(d, 0, std::min(d.size(), room));
			SIM_CHECK(memcmp(store.get(), all.data(), all.size()) == 0, "bytes", "OMemoryStream holds wrong bytes");
		}
	}
	// fixed counts against flaky ends
	void op_fixed_source() {
		src.stalled = src.threw = false;
		size_t n = some();
		u64 before = src.pos;
		std::string v(n, 0);
		bool ok = false, broken = false;
		try {
			src.read(&v[0], n);
			ok = true;
		} catch (const Broken &) {
			broken = true;
		} catch (const std::exception &) {
		}
		size_t got = size_t(src.pos - before);
		ev("fixed_read", i64(n), i64(got), ok);
		SIM_CHECK(ok ? got == n : got < n, "fixed-read", "read(%zu) took %zu and %s", n, got, ok ? "returned" : "threw");
		SIM_CHECK(ok || broken || src.stalled || src.pos == src.end, "fixed-read", "read(%zu) threw although the source has more", n);
		SIM_CHECK(v.substr(0, got) == pat(src.key, before, got), "bytes", "read(%zu) gave wrong bytes", n);
	}
	void op_fixed_sink() {
		Sink sink;
		if (choose(3) == 0)
			sink.limit = some();
		std::string d = fresh(some());
		bool ok = false;
		try {
			sink.write(d.data(), d.size());
			ok = true;
		} catch (const Broken &) {
		} catch (const std::exception &) {
			SIM_CHECK(sink.refused, "fixed-write", "write(%zu) threw although the sink refused nothing", d.size());
		}
		ev("fixed_write", i64(d.size()), i64(sink.got.size()), ok);
		SIM_CHECK(ok ? sink.got == d : (sink.got.size() < d.size() && d.compare(0, sink.got.size(), sink.got) == 0), "fixed-write", "write(%zu) %s, the sink got %zu bytes", d.size(), ok ? "returned" : "threw", sink.got.size());
	}
};
}  // namespace

SCENARIO(streams) {
	swarm({F_SHORT_READ, F_SHORT_WRITE, F_SEND_EAGAIN, F_PEER_RESET});
	if (choose(3) == 0)
		set_fault(F_SHORT_READ, 800), set_fault(F_SHORT_WRITE, 800);
	World w;
	w.src.key = 7777;
	w.src.end = size_log(100, 20000);
	int n = 1 + int(choose(4));
	w.slots.resize(size_t(n));
	for (int i = 0; i < n; i++) {
		w.slots[i].id = i;
		w.make(w.slots[i]);
		w.check(w.slots[i], "construction");
	}
	int ops = int(size_log(5, 250));
	for (int i = 0; i < ops; i++) {
		Slot &s = w.slots[choose(u32(n))];
		Slot &t = w.slots[choose(u32(n))];
		const char *name = "";
		switch (weighted({4, 2, 4, 2, 5, 3, 2, 2, 1, 2, 1, 1, 2, 1, 1, 1})) {
		case 0: name = "read_some", w.op_read_some(s); break;
		case 1: name = "read", w.op_read(s); break;
		case 2: name = "write_some"; if (s.out) w.op_write_some(s); break;
		case 3: name = "write"; if (s.out) w.op_write(s); break;
		case 4: name = "write_to", w.op_write_to_sink(s); break;
		case 5: if (&s != &t && t.out) w.op_transfer(s, t); break;
		case 6: name = "read_from"; if (s.buf) w.op_read_from(s); break;
		case 7: name = "read_enough_data"; if (s.buf) w.op_read_enough(s); break;
		case 8: if (s.buf && &s != &t) w.op_read_from_stream(s, t); break;
		case 9: name = "peek"; if (s.buf) w.op_peek(s); break;
		case 10: name = "did_write"; if (s.buf) w.op_raw_write(s); break;
		case 11: name = "did_read"; if (s.buf) w.op_raw_read(s); break;
		case 12: name = "clear, move or replacement", w.op_change(s); break;
		case 13: w.op_omem(); break;
		case 14: w.op_fixed_source(); break;
		case 15: w.op_fixed_sink(); break;
		}
		w.check(s, name);
	}
	stop_faults();
	for (auto &s : w.slots) {  // what remains comes out
		Sink sink;
		size_t rc = s.in->write_to(sink);
		SIM_CHECK(rc == s.model.size() && sink.got == s.model, "bytes", "%s: %zu bytes came out at the end, %zu held", kind_names[s.kind], rc, s.model.size());
	}
	if (w.moved > 0)
		nontrivial();
}
