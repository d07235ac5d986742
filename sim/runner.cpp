// Forks one child per simulated run; collects results; replays and minimises failures.
#include "internal.hpp"
#include <algorithm>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <unordered_set>
#include <fstream>
#include <sstream>

using namespace sim;

static double wall_now() {
	timespec ts;
	syscall(228 /* clock_gettime */, CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec / 1e9;
}
struct Out {
	int status = 0;  // 1 ok, 2 violation, 3 harness error
	std::string cls, msg;
	u64 hash = 0, shape = 0;
	u32 nchoices = 0;
};
static Scenario *scenario;
static std::string trace_file;

static void reset_result() {
	Result &r = shared->r;
	memset((void *)&r, 0, offsetof(Result, choices));
}
static Out run_one(u64 seed, const std::vector<u32> *choices, bool verbose, unsigned alarm_s = 60) {
	reset_result();
	pid_t p = fork();
	if (p < 0) {
		perror("fork");
		exit(4);
	}
	if (p == 0) {
		run_seed = seed;
		replaying = choices != nullptr;
		if (choices)
			replay_choices = *choices;
		int nul = open("/dev/null", O_RDWR);
		dup2(nul, 0);
		dup2(nul, 1);
		static std::string dummy;
		if (verbose) {
			trace_out = &dummy;
			int t = open(trace_file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
			dup2(t, 2);
		} else
			dup2(nul, 2);
		alarm(alarm_s);
		run_child(scenario->fn);
		_exit(9);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
	}
	Out o;
	Result &r = shared->r;
	o.status = r.status;
	o.cls = r.cls;
	o.msg = r.msg;
	o.hash = r.hash;
	o.shape = r.shape;
	o.nchoices = r.nchoices;
	if (o.status == 0) {
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
			o.status = 2;
			o.cls = "hang:wall";
			o.msg = "run did not finish within the wall limit";
		} else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
			o.status = 3;
			o.cls = "harness";
			o.msg = "child was killed";
		} else if (WIFSIGNALED(st)) {
			o.status = 2;
			o.cls = std::string("crash:") + std::to_string(WTERMSIG(st));
			o.msg = std::string("process died of signal ") + strsignal(WTERMSIG(st));
		} else {
			o.status = 2;
			o.cls = "crash:exit";
			o.msg = "process exited unexpectedly with status " + std::to_string(WEXITSTATUS(st));
		}
		o.hash = 1;
	}
	return o;
}
static std::vector<u32> recorded() { return std::vector<u32>(shared->r.choices, shared->r.choices + shared->r.nchoices); }

static std::string esc(const std::string &s) {
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\')
			r += '\\', r += char(c);
		else if (c < 32 || c > 126) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			r += b;
		} else
			r += char(c);
	}
	return r;
}
static std::string oneline(std::string s) {
	for (auto &c : s)
		if (c == '\n')
			c = ' ';
	return s;
}
static void write_replay(const std::string &path, u64 seed, const Out &o, const std::vector<u32> &ch, const std::string &extra) {
	std::ofstream f(path);
	f << "scenario " << scenario->name << "\nseed " << seed << "\nclass " << o.cls << "\nmessage " << oneline(o.msg) << "\nhash " << o.hash
	  << "\n";
	f << "choices " << ch.size() << "\n";
	for (size_t i = 0; i < ch.size(); i++)
		f << ch[i] << ((i % 32 == 31) ? '\n' : ' ');
	f << "\n" << extra;
}
struct Replay {
	std::string scenario, cls;
	u64 seed = 0, hash = 0;
	std::vector<u32> choices;
};
static bool read_replay(const std::string &path, Replay &r) {
	std::ifstream f(path);
	std::string line;
	while (std::getline(f, line)) {
		std::istringstream is(line);
		std::string k;
		is >> k;
		if (k == "scenario")
			is >> r.scenario;
		else if (k == "seed")
			is >> r.seed;
		else if (k == "class")
			std::getline(is >> std::ws, r.cls);
		else if (k == "hash")
			is >> r.hash;
		else if (k == "choices") {
			size_t n;
			is >> n;
			r.choices.resize(n);
			for (auto &c : r.choices)
				f >> c;
			return bool(f) || n == 0;
		}
	}
	return false;
}
static std::string tail_trace(size_t max_lines) {
	std::ifstream f(trace_file);
	std::vector<std::string> v;
	std::string l;
	while (std::getline(f, l))
		v.push_back("# " + l);
	std::string r = "# trace of the minimised run (simulated seconds, thread, operation, arguments)\n";
	size_t from = v.size() > max_lines ? v.size() - max_lines : 0;
	if (from)
		r += "# ... " + std::to_string(from) + " earlier lines omitted; 'replay --verbose' prints them\n";
	for (size_t i = from; i < v.size(); i++)
		r += v[i] + "\n";
	return r;
}
static std::map<std::string, std::string> args;
static std::string arg(const char *k, const char *d = "") {
	auto it = args.find(k);
	return it == args.end() ? d : it->second;
}

static int do_run() {
	u64 seed0 = strtoull(arg("seed0", "1").c_str(), nullptr, 10);
	u64 stride = strtoull(arg("stride", "1").c_str(), nullptr, 10), offset = strtoull(arg("offset", "0").c_str(), nullptr, 10);
	double seconds = atof(arg("seconds", "5").c_str());
	u64 maxruns = strtoull(arg("max", "1000000000").c_str(), nullptr, 10);
	std::set<std::string> known;
	{
		std::istringstream is(arg("known"));
		std::string s;
		while (std::getline(is, s, ','))
			if (!s.empty())
				known.insert(s);
	}
	u64 check_every = strtoull(arg("twice", "64").c_str(), nullptr, 10);
	std::unordered_set<u64> shapes;
	u64 runs = 0, nontriv = 0, distinct = 0, sim_ns = 0, steps = 0, switches = 0, twice = 0, mismatches = 0;
	u64 choices_total = 0, overflow = 0;
	std::vector<u64> faults(F_COUNT), fault_runs(F_COUNT), probes(MAX_PROBES), probe_runs(MAX_PROBES);
	std::map<std::string, u64> known_hits;
	std::string viol_cls, viol_msg, err_msg, mismatch_seed;
	u64 viol_seed = 0;
	int rc = 0;
	double t0 = wall_now();
	std::ostringstream samples;
	int nsamples = 0;
	for (u64 i = 0; i < maxruns && wall_now() - t0 < seconds; i++) {
		u64 seed = seed0 * 1000003ULL + offset + i * stride;
		Out o = run_one(seed, nullptr, false);
		runs++;
		Result &r = shared->r;
		sim_ns += u64(r.sim_ns);
		steps += r.steps;
		switches += r.switches;
		choices_total += r.nchoices;
		overflow += r.overflow;
		for (int k = 0; k < F_COUNT; k++) {
			faults[k] += r.faults[k];
			fault_runs[k] += r.faults[k] != 0;
		}
		for (u32 k = 0; k < MAX_PROBES; k++) {
			probes[k] += r.probes[k];
			probe_runs[k] += r.probes[k] != 0;
		}
		if (r.nontrivial) {
			nontriv++;
			if (shapes.size() < 4000000 && shapes.insert(r.shape).second)
				distinct++;
		}
		if (nsamples < 2 && r.nontrivial && o.status == 1) {
			samples << (nsamples ? "," : "") << "{\"seed\":" << seed << ",\"choices\":" << r.nchoices << ",\"steps\":" << r.steps
			        << ",\"sim_s\":" << r.sim_ns / 1e9 << ",\"event_log_hash\":\"" << std::hex << r.hash << std::dec << "\",\"faults\":{";
			bool first = true;
			for (int k = 0; k < F_COUNT; k++)
				if (r.faults[k]) {
					samples << (first ? "" : ",") << "\"" << fault_names[k] << "\":" << r.faults[k];
					first = false;
				}
			samples << "}}";
			nsamples++;
		}
		if (o.status == 3) {
			err_msg = "seed " + std::to_string(seed) + ": " + o.msg;
			rc = 3;
			break;
		}
		if (o.status == 2) {
			auto ch = recorded();
			if (known.count(o.cls)) {
				if (known_hits[o.cls]++ == 0 && !arg("fail").empty())
					write_replay(arg("fail") + ".known." + std::to_string(known_hits.size()), seed, o, ch, "");
				continue;
			}
			Out o2 = run_one(seed, nullptr, false);
			if (o2.status != 2 || o2.cls != o.cls || o2.hash != o.hash) {
				mismatches++;
				mismatch_seed = std::to_string(seed) + " class " + o.cls + " / " + o2.cls;
				if (mismatches > 20)
					break;
				continue;
			}
			viol_cls = o.cls;
			viol_msg = o.msg;
			viol_seed = seed;
			if (!arg("fail").empty())
				write_replay(arg("fail"), seed, o, ch, "");
			rc = 1;
			break;
		}
		if (check_every && i % check_every == 0) {
			Out o2 = run_one(seed, nullptr, false);
			twice++;
			if (o2.status != o.status || o2.hash != o.hash || o2.nchoices != o.nchoices) {
				mismatches++;
				mismatch_seed = std::to_string(seed);
			}
		}
	}
	u64 cov = 0, covn = guard_count;
	for (u32 i = 1; i <= guard_count && i < MAX_GUARDS; i++)
		cov += shared->cov[i];
	std::ostringstream js;
	js << "{\"rc\":" << rc << ",\"runs\":" << runs << ",\"nontrivial\":" << nontriv << ",\"distinct\":" << distinct << ",\"sim_s\":" << sim_ns / 1e9
	   << ",\"steps\":" << steps << ",\"switches\":" << switches << ",\"choices\":" << choices_total << ",\"overflow\":" << overflow
	   << ",\"wall_s\":" << wall_now() - t0 << ",\"twice\":" << twice << ",\"mismatches\":" << mismatches << ",\"mismatch_seed\":\""
	   << esc(mismatch_seed) << "\",\"edges\":" << cov << ",\"edges_total\":" << covn << ",\"faults\":{";
	for (int k = 0; k < F_COUNT; k++)
		js << (k ? "," : "") << "\"" << fault_names[k] << "\":[" << faults[k] << "," << fault_runs[k] << "]";
	js << "},\"probes\":{";
	for (size_t k = 0; k < shared_probe_names(); k++)
		js << (k ? "," : "") << "\"" << esc(shared->probe_name[k]) << "\":[" << probes[k] << "," << probe_runs[k] << "]";
	js << "},\"known\":{";
	bool first = true;
	for (auto &k : known_hits) {
		js << (first ? "" : ",") << "\"" << esc(k.first) << "\":" << k.second;
		first = false;
	}
	js << "},\"samples\":[" << samples.str() << "],\"class\":\"" << esc(viol_cls) << "\",\"message\":\"" << esc(viol_msg) << "\",\"seed\":" << viol_seed
	   << ",\"error\":\"" << esc(err_msg) << "\"}\n";
	std::ofstream(arg("out", "/dev/stdout")) << js.str();
	// coverage bitmap for merging
	if (!arg("cov").empty()) {
		std::ofstream f(arg("cov"), std::ios::binary);
		f.write((const char *)shared->cov, std::min<u32>(guard_count + 1, MAX_GUARDS));
	}
	if (!arg("shapes").empty()) {
		std::ofstream f(arg("shapes"), std::ios::binary);
		for (u64 s : shapes)
			f.write((const char *)&s, 8);
	}
	return rc;
}

static int do_replay(const std::string &path, bool verbose) {
	Replay r;
	if (!read_replay(path, r)) {
		fprintf(stderr, "cannot read %s\n", path.c_str());
		return 4;
	}
	Out o = run_one(r.seed, &r.choices, verbose);
	if (verbose) {
		std::ifstream f(trace_file);
		std::string l;
		while (std::getline(f, l))
			printf("%s\n", l.c_str());
	}
	printf("status %d class %s hash %llu\nmessage %s\n", o.status, o.cls.c_str(), (unsigned long long)o.hash, oneline(o.msg).c_str());
	if (o.status == 2)
		return o.cls == r.cls ? (o.hash == r.hash ? 1 : 5) : 6;
	return o.status == 1 ? 0 : 3;
}

static int do_shrink(const std::string &in, const std::string &out) {
	Replay r;
	if (!read_replay(in, r))
		return 4;
	double budget = atof(arg("seconds", "20").c_str()), t0 = wall_now();
	Out o0 = run_one(r.seed, &r.choices, false);
	if (o0.status != 2) {
		fprintf(stderr, "does not reproduce\n");
		return 5;
	}
	std::vector<u32> best = recorded();
	std::string cls = o0.cls;
	Out bo = o0;
	u64 tries = 0;
	auto trim = [](std::vector<u32> v) {
		while (!v.empty() && v.back() == 0)
			v.pop_back();
		return v;
	};
	auto better = [](const std::vector<u32> &a, const std::vector<u32> &b) {
		if (a.size() != b.size())
			return a.size() < b.size();
		u64 sa = 0, sb = 0;
		for (u32 x : a)
			sa += x ? 1 : 0;
		for (u32 x : b)
			sb += x ? 1 : 0;
		if (sa != sb)
			return sa < sb;
		return a < b;
	};
	best = trim(best);
	auto attempt = [&](const std::vector<u32> &c) {
		if (wall_now() - t0 > budget)
			return false;
		tries++;
		Out o = run_one(r.seed, &c, false, 20);
		if (o.status != 2 || o.cls != cls)
			return false;
		auto got = trim(recorded());
		if (got.size() > c.size() + 1000)
			got = trim(c);
		const auto &cand = better(got, trim(c)) ? got : c;
		if (!better(trim(cand), best))
			return false;
		best = trim(cand);
		bo = o;
		return true;
	};
	bool progress = true;
	while (progress && wall_now() - t0 < budget) {
		progress = false;
		for (size_t chunk = std::max<size_t>(best.size() / 2, 1);; chunk /= 2) {  // delete
			for (size_t i = 0; i < best.size() && wall_now() - t0 < budget;) {
				std::vector<u32> c(best.begin(), best.begin() + i);
				c.insert(c.end(), best.begin() + std::min(best.size(), i + chunk), best.end());
				if (attempt(c))
					progress = true;
				else
					i += chunk;
			}
			if (chunk <= 1)
				break;
		}
		for (size_t chunk = std::max<size_t>(best.size() / 4, 1);; chunk /= 2) {  // zero
			for (size_t i = 0; i < best.size() && wall_now() - t0 < budget; i += chunk) {
				std::vector<u32> c = best;
				bool any = false;
				for (size_t j = i; j < std::min(c.size(), i + chunk); j++) {
					any |= c[j] != 0;
					c[j] = 0;
				}
				if (any && attempt(c))
					progress = true;
			}
			if (chunk <= 1)
				break;
		}
		for (size_t i = 0; i < best.size() && wall_now() - t0 < budget; i++)  // lower
			while (i < best.size() && best[i] > 1) {
				std::vector<u32> c = best;
				c[i] /= 2;
				if (!attempt(c)) {
					c = best;
					c[i]--;
					if (!attempt(c))
						break;
				}
				progress = true;
			}
	}
	// canonical record of the minimised run
	Out o = run_one(r.seed, &best, true);
	if (o.status != 2 || o.cls != cls) {
		fprintf(stderr, "minimised run does not reproduce\n");
		return 5;
	}
	write_replay(out, r.seed, o, best, tail_trace(400));
	printf("%zu -> %zu choices in %llu tries; class %s\n", r.choices.size(), best.size(), (unsigned long long)tries, cls.c_str());
	return 0;
}

int main(int argc, char **argv) {
	int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
		setenv("SIM_REEXEC", "1", 1);
		if (personality(pers | ADDR_NO_RANDOMIZE) != -1)
			execv("/proc/self/exe", argv);
	}
	shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (argc < 2)
		return 4;
	std::string mode = argv[1];
	std::vector<std::string> pos;
	for (int i = 2; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--verbose")
			args["verbose"] = "1";
		else if (a.substr(0, 2) == "--" && i + 1 < argc)
			args[a.substr(2)] = argv[++i];
		else
			pos.push_back(a);
	}
	trace_file = arg("trace", "");
	if (trace_file.empty())
		trace_file = std::string("/tmp/sim_trace.") + std::to_string(getpid());
	std::string want = arg("scenario");
	if (want.empty() && !pos.empty()) {
		Replay r;
		if (read_replay(pos[0], r))
			want = r.scenario;
	}
	if (mode == "list") {
		for (auto s : scenarios())
			printf("%s\n", s->name);
		return 0;
	}
	for (auto s : scenarios())
		if (want.empty() || want == s->name) {
			scenario = s;
			break;
		}
	if (!scenario) {
		fprintf(stderr, "no scenario %s\n", want.c_str());
		return 4;
	}
	int rc = 4;
	if (mode == "run")
		rc = do_run();
	else if (mode == "seed") {
		u64 seed = strtoull(arg("seed").c_str(), nullptr, 10);
		Out o = run_one(seed, nullptr, !arg("verbose").empty());
		if (!arg("verbose").empty()) {
			std::ifstream f(trace_file);
			std::string l;
			while (std::getline(f, l))
				printf("%s\n", l.c_str());
		}
		printf("status %d class %s hash %llu choices %u\nmessage %s\n", o.status, o.cls.c_str(), (unsigned long long)o.hash, o.nchoices, o.msg.c_str());
		rc = o.status == 1 ? 0 : o.status == 2 ? 1 : 3;
	} else if (mode == "replay" && pos.size() == 1)
		rc = do_replay(pos[0], !arg("verbose").empty());
	else if (mode == "shrink" && pos.size() == 2)
		rc = do_shrink(pos[0], pos[1]);
	if (arg("trace").empty())
		unlink(trace_file.c_str());
	return rc;
}
