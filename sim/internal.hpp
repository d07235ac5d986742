#pragma once
#include "sim.hpp"
namespace sim {
constexpr u32 MAX_CHOICES = 1u << 21;
constexpr u32 MAX_PROBES = 256;
constexpr u32 MAX_GUARDS = 1u << 15;
struct Result {
	volatile int status;  // 0 incomplete, 1 ok, 2 violation, 3 harness error
	char cls[128];
	char msg[3000];
	u64 hash;       // full event log
	u64 shape;      // sequence of (thread, op, fd, result) without times
	i64 sim_ns;
	u64 steps, bb, switches;
	u32 nontrivial;
	u32 overflow;
	u32 faults[F_COUNT];
	u32 probes[MAX_PROBES];
	u32 nchoices;
	u32 choices[MAX_CHOICES];
};
struct Shared {
	Result r;
	u8 cov[MAX_GUARDS];
	u32 nprobes;
	char probe_name[MAX_PROBES][64];
};
inline size_t shared_probe_names();
extern Shared *shared;
inline size_t shared_probe_names() { return shared->nprobes; }
extern bool replaying;
extern std::vector<u32> replay_choices;
extern u64 run_seed;
extern std::string *trace_out;  // verbose log
extern u32 guard_count;
const std::vector<Scenario *> &scenarios();
void run_child(void (*fn)());  // never returns
}  // namespace sim
