// Shared by all scenarios.
#pragma once
#include <crab/crab.hpp>
#include <string.h>
#include <algorithm>
#include "sim.hpp"

namespace sc {
using namespace sim;
typedef crab::steady_clock::time_point TP;
typedef crab::steady_clock::duration DUR;
inline i64 ns(TP t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }
inline TP tp(i64 n) { return TP(std::chrono::duration_cast<DUR>(std::chrono::nanoseconds(n))); }
inline DUR dur(i64 n) { return std::chrono::duration_cast<DUR>(std::chrono::nanoseconds(n)); }
inline i64 loop_now() { return ns(crab::RunLoop::current()->now()); }

// runs until RunLoop::cancel() (true) or until the simulator stops the run (false)
inline bool run_loop(crab::RunLoop &rl) {
	try {
		rl.run();
		return true;
	} catch (const sim::Stop &) {
		return false;
	}
}
inline bool run_for(crab::RunLoop &rl, i64 d) {
	stop_at(now() + d);
	bool r = run_loop(rl);
	stop_at(INT64_MAX);
	return r;
}
inline bool run_until(crab::RunLoop &rl, i64 d, std::function<bool()> pred) {
	stop_when(pred);
	bool r = run_for(rl, d);
	stop_when(nullptr);
	return r;
}

// position dependent content: every byte tells where it belongs
inline u8 pat_byte(u32 key, u64 pos) {
	u64 z = (u64(key) << 40) + pos / 4 + 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	z ^= z >> 31;
	return u8(z >> (8 * (pos % 4)));
}
inline std::string pat(u32 key, u64 pos, size_t n) {
	std::string s(n, 0);
	for (size_t i = 0; i < n; i++)
		s[i] = char(pat_byte(key, pos + i));
	return s;
}
inline std::string text(u32 key, u64 pos, size_t n) {  // printable
	std::string s(n, 0);
	for (size_t i = 0; i < n; i++)
		s[i] = char('a' + pat_byte(key, pos + i) % 26);
	return s;
}
inline std::string hex(const std::string &s, size_t max = 40) {
	std::string r;
	char b[4];
	for (size_t i = 0; i < s.size() && i < max; i++) {
		if (s[i] >= 32 && s[i] < 127)
			r += s[i];
		else {
			snprintf(b, sizeof b, "\\%02x", (unsigned char)s[i]);
			r += b;
		}
	}
	if (s.size() > max)
		r += "...";
	return r;
}
// first position at which a differs from b (or the shorter length)
inline size_t diff_at(const std::string &a, const std::string &b) {
	size_t n = std::min(a.size(), b.size());
	for (size_t i = 0; i < n; i++)
		if (a[i] != b[i])
			return i;
	return n;
}
inline crab::Address addr(int port) { return crab::Address("127.0.0.1", uint16_t(port)); }

// time the loop spent in epoll_wait while something was owed
struct SleepMeter {
	i64 enter = 0, enter_busy = 0, leave_busy = 0;
	u64 waits = 0;
};
}  // namespace sc
using namespace sc;
