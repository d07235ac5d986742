#!/usr/bin/env python3
"""Builds the simulator with /repo's current sources, explores seeds, gates and minimises failures, writes evidence.

  check.py run <property> [--tier quick|thorough] [--seconds S] [--workers N]
  check.py replay <replay-file> [--verbose]
  check.py build <property>            (prints the binaries)
"""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
REPLAYS = os.environ.get("VERIF_REPLAYS", os.path.join(HERE, "replays"))
SIM = os.path.join(HERE, "sim")
CXX = "clang++"
CACHE = os.path.join(HERE, ".build")
sys.path.insert(0, HERE)
from registry import CHECKS, REAL, STUBS  # noqa: E402

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function,nonnull-attribute", "-fno-sanitize-recover=undefined"]
VARIANTS = {
    # crab flags, scenario flags, sim flags, link flags
    "asan": (["-O1", "-g1", "-fno-omit-frame-pointer"] + SAN + ["-fsanitize-coverage=trace-pc-guard"],
             ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"], [], SAN),
    "fine": (["-O1", "-g1", "-fno-omit-frame-pointer"] + SAN + ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"],
             ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"], [], SAN),
    "tsan": (["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-fsanitize-coverage=trace-pc-guard"],
             ["-O1", "-g1", "-fno-omit-frame-pointer"], ["-DSIM_TSAN"], ["-fsanitize=thread"]),
}
DEFS = ["-DCRAB_COMPILE=1", "-pthread", "-Wno-everything"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(open(root, "rb").read())
            continue
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def compile_one(src, flags, key_parts):
    """Compiles to an object, cached by the content of everything it depends on."""
    key = hashlib.sha256(("|".join([src] + flags) + "|" + "|".join(key_parts)).encode()).hexdigest()[:24]
    os.makedirs(CACHE, exist_ok=True)
    obj = os.path.join(CACHE, key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.%s" % (os.getpid(), os.path.basename(src).replace(".", "_"))
        r = sh([CXX] + flags + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
        os.replace(tmp, obj)
    return obj, key


def wrap_flags():
    text = open(os.path.join(SIM, "sim.cpp")).read()
    names = set(re.findall(r"^WRAP\([^,]+, (\w+)", text, re.M)) | set(re.findall(r"__wrap_(\w+)\(int fd", text))
    return ["-Wl,--wrap=" + n for n in sorted(names)]


def build(scen_file, variant, pool=None):
    crabf, scenf, simf, linkf = VARIANTS[variant]
    repo_h = tree_hash(os.path.join(REPO, "include"), os.path.join(REPO, "src"))
    sim_h = tree_hash(os.path.join(SIM, "sim.hpp"), os.path.join(SIM, "internal.hpp"))
    scen = os.path.join(SIM, "scenarios", scen_file)
    jobs = [
        (os.path.join(REPO, "src", "crab.cpp"), ["-std=gnu++11", "-I" + os.path.join(REPO, "include")] + DEFS + crabf, [repo_h]),
        (scen, ["-std=gnu++14", "-I" + os.path.join(REPO, "include"), "-I" + SIM] + DEFS + scenf,
         [repo_h, sim_h, tree_hash(os.path.join(SIM, "scenarios"))]),
        (os.path.join(SIM, "sim.cpp"), ["-std=gnu++17", "-O2", "-g1", "-fno-access-control", "-pthread"] + simf,
         [sim_h, tree_hash(os.path.join(SIM, "sim.cpp"))]),
        (os.path.join(SIM, "runner.cpp"), ["-std=gnu++17", "-O1", "-g1", "-pthread"] + simf, [sim_h, tree_hash(os.path.join(SIM, "runner.cpp"))]),
    ]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        res = [f.result() for f in [ex.submit(compile_one, *j) for j in jobs]]
    objs = [r[0] for r in res]
    key = hashlib.sha256("|".join([r[1] for r in res] + wrap_flags() + ([open(__file__).read()] if variant == "tsan" else [])).encode()).hexdigest()[:24]
    exe = os.path.join(CACHE, "%s-%s-%s" % (os.path.splitext(scen_file)[0], variant, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        if variant == "tsan":
            objs = [objs[0], isolate(objs[1:], exe + ".harness.o")]
        r = sh([CXX, "-o", tmp] + objs + linkf + wrap_flags() + ["-pthread"])
        if r.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (exe, r.stdout[-6000:]))
        os.replace(tmp, exe)
    return exe


def isolate(objs, out):
    """Merges the harness's objects and makes their inline functions local: the linker must not give the harness the
    instrumented copies from crab.o, nor crab the uninstrumented ones."""
    tmp = "%s.%d" % (out, os.getpid())
    for cmd in (["ld", "-r", "--force-group-allocation", "-o", tmp] + objs,):
        r = sh(cmd)
        if r.returncode != 0:
            raise BuildError("%s failed:\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    r = sh(["readelf", "-sW", tmp])
    weak = [l.split()[7] for l in r.stdout.splitlines() if len(l.split()) == 8 and l.split()[3:5] == ["FUNC", "WEAK"] and l.split()[6] != "UND"]
    with open(tmp + ".txt", "w") as f:
        f.write("\n".join(weak) + "\n")
    r = sh(["objcopy", "--localize-symbols=" + tmp + ".txt", tmp, tmp + ".l"])
    os.remove(tmp + ".txt")
    os.remove(tmp)
    if r.returncode != 0:
        raise BuildError("objcopy failed:\n%s" % r.stdout[-6000:])
    os.replace(tmp + ".l", out)
    return out


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:handle_abort=1:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=0:" \
                        "max_allocation_size_mb=3000:quarantine_size_mb=64:symbolize=1:intercept_tls_get_addr=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:symbolize=1"
    e["TSAN_OPTIONS"] = "halt_on_error=0:report_signal_unsafe=0:exitcode=0:die_after_fork=0:report_thread_leaks=0:history_size=4:atexit_sleep_ms=0"
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
    if sym:
        for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
            e[k] += ":external_symbolizer_path=" + sym
    return e


def known_findings():
    """known_findings.txt lines: 'finding: property=<id> scenario=<name> class=<cls> <what fails>' or 'fixed: ...'"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) class=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def explore(exe, scenario, seed, seconds, workers, scratch, known, maxruns=None, twice=64):
    procs = []
    for w in range(workers):
        base = os.path.join(scratch, "%s.%d" % (scenario, w))
        cmd = [exe, "run", "--scenario", scenario, "--seed0", str(seed), "--stride", str(workers), "--offset", str(w),
               "--seconds", "%.2f" % seconds, "--out", base + ".json", "--fail", base + ".fail", "--cov", base + ".cov",
               "--shapes", base + ".shapes", "--trace", base + ".trace", "--twice", str(twice), "--known", ",".join(known)]
        if maxruns:
            cmd += ["--max", str(maxruns)]
        procs.append((subprocess.Popen(cmd, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True), base))
    results = []
    for p, base in procs:
        try:
            _, err = p.communicate(timeout=seconds + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            results.append(({"rc": 4, "error": "worker did not end"}, base))
            continue
        try:
            results.append((json.load(open(base + ".json")), base))
        except Exception as ex:
            results.append(({"rc": 4, "error": "worker failed: %s %s" % (ex, (err or "")[-500:])}, base))
    return results


def merge(results):
    tot = {"runs": 0, "nontrivial": 0, "sim_s": 0.0, "steps": 0, "switches": 0, "choices": 0, "twice": 0, "mismatches": 0, "overflow": 0}
    faults, probes, known, samples = {}, {}, {}, []
    cov = None
    shapes = set()
    for r, base in results:
        if "runs" not in r:
            continue
        for k in tot:
            tot[k] += r[k]
        for k, v in r["faults"].items():
            a = faults.setdefault(k, [0, 0])
            a[0] += v[0]
            a[1] += v[1]
        for k, v in r["probes"].items():
            a = probes.setdefault(k, [0, 0])
            a[0] += v[0]
            a[1] += v[1]
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        if len(samples) < 3:
            samples += r["samples"]
        try:
            b = open(base + ".cov", "rb").read()
            cov = b if cov is None else bytes(x | y for x, y in zip(cov, b))
            s = open(base + ".shapes", "rb").read()
            shapes.update(struct.unpack("<%dQ" % (len(s) // 8), s))
        except OSError:
            pass
    return tot, faults, probes, known, samples[:3], cov, len(shapes)


def run_check(prop, tier, seconds, workers, keep=False):
    t0 = time.time()
    spec = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.makedirs(EVIDENCE, exist_ok=True)
    try:
        return run_check_in(prop, tier, seconds, workers, spec, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_check_in(prop, tier, seconds, workers, spec, seed, scratch, t0):
    scen = spec["scenarios"]
    total = seconds or (spec.get("quick_s", 20) if tier == "quick" else spec.get("thorough_s", 480))
    wsum = sum(s.get("weight", 1) for s in scen)
    cover = {"evaluations": 0, "distinct_nontrivial": 0, "rule": spec["rule"], "samples": [], "scenarios": {}, "fault_kinds": {},
             "probes": {}, "simulated_seconds": 0.0, "wrapped_calls": 0, "thread_switches": 0, "determinism_double_runs": 0,
             "real_components": REAL, "stubbed_components": STUBS,
             "distinctness_measure": "64-bit hash of the sequence of (thread, system call, descriptor, result) of the whole run, times left out; a run counts when its nontrivial flag is set by the scenario and its hash is new"}
    violations, rc = [], 0
    known_all = [k for k in known_findings() if k[0] == prop]
    known_hit = set()
    explore_wall = 0.0
    errors = []
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        futs = {}
        for s in scen:
            k = (s["file"], s.get("variant", "asan"))
            if k not in futs:
                futs[k] = ex.submit(build, *k)
        exes = {k: f.result() for k, f in futs.items()}
    build_wall = time.time() - t0
    for s in scen:
        exe = exes[(s["file"], s.get("variant", "asan"))]
        name = s["name"]
        known = [k[2] for k in known_all if k[1] == name]
        secs = total * s.get("weight", 1) / wsum
        te = time.time()
        res = explore(exe, name, seed, secs, workers, scratch, known)
        explore_wall += time.time() - te
        tot, faults, probes, kn, samples, cov, nshapes = merge(res)
        for k in kn:
            known_hit.add((name, k))
        cover["evaluations"] += tot["runs"]
        cover["distinct_nontrivial"] += nshapes
        cover["simulated_seconds"] += tot["sim_s"]
        cover["wrapped_calls"] += tot["steps"]
        cover["thread_switches"] += tot["switches"]
        cover["determinism_double_runs"] += tot["twice"]
        cover["scenarios"][name] = {
            "variant": s.get("variant", "asan"), "runs": tot["runs"], "nontrivial_runs": tot["nontrivial"], "distinct_shapes": nshapes,
            "simulated_seconds": round(tot["sim_s"], 3), "recorded_choices": tot["choices"],
            "library_edges_covered": sum(1 for b in (cov or b"") if b), "library_edges_total": max(0, len(cov or b"") - 1),
            "seeds": "%d*1000003 + 0..%d" % (seed, tot["runs"])}
        for k, v in faults.items():
            if v[0]:
                a = cover["fault_kinds"].setdefault(k, {"injected": 0, "runs": 0})
                a["injected"] += v[0]
                a["runs"] += v[1]
        for k, v in probes.items():
            a = cover["probes"].setdefault(k, {"hits": 0, "runs": 0})
            a["hits"] += v[0]
            a["runs"] += v[1]
        for x in samples:
            x["scenario"] = name
            cover["samples"].append(x)
        viol = [(r, b) for r, b in res if r.get("rc") == 1]
        # errors of the harness itself, and runs that did not repeat
        for r, b in res:
            if r.get("rc") not in (0, 1):
                errors.append("%s: %s" % (name, r.get("error")))
            if r.get("mismatches"):
                errors.append("%s: %d runs did not repeat exactly, e.g. seed %s" % (name, r["mismatches"], r.get("mismatch_seed")))
        seen = set()
        for r, b in viol:
            if r["class"] in seen:
                continue
            seen.add(r["class"])
            os.makedirs(REPLAYS, exist_ok=True)
            out = os.path.join(REPLAYS, "%s-%s-%d.replay" % (prop, name, r["seed"]))
            # gate: a fresh process must reproduce class and event log exactly
            g = sh([exe, "replay", b + ".fail", "--trace", b + ".t"], env=env())
            if g.returncode != 1:
                errors.append("%s: seed %d class %s did not replay (%s)" % (name, r["seed"], r["class"], g.stdout.strip()[-300:]))
                continue
            m = sh([exe, "shrink", b + ".fail", out, "--seconds", "20" if tier == "quick" else "60", "--trace", b + ".t"], env=env())
            if m.returncode == 0:
                g = sh([exe, "replay", out, "--trace", b + ".t"], env=env())
            if m.returncode != 0 or g.returncode != 1:
                shutil.copy(b + ".fail", out)
            violations.append((name, r["class"], r["message"], out, r["seed"], m.stdout.strip()))
            if len(seen) >= 3:
                break
        if violations:
            break
    for k in known_all:
        if (k[1], k[2]) in known_hit:
            print("KNOWN-FINDING: property=%s %s [%s/%s]" % (prop, k[3], k[1], k[2]))
    if explore_wall > 0:
        cover["runs_per_hour"] = int(cover["evaluations"] / explore_wall * 3600)
        cover["seeds_per_hour"] = cover["runs_per_hour"]
    cover["workers"] = workers
    cover["build_wall_s"] = round(build_wall, 1)
    cover["simulated_seconds"] = round(cover["simulated_seconds"], 3)
    cover["fault_kinds_configured_but_never_fired"] = sorted(f for f in spec.get("expect_faults", []) if f not in cover["fault_kinds"])
    cover["probes_never_hit"] = sorted(k for k, v in cover["probes"].items() if not v["hits"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cover,
          "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for name, cls, msg, path, sd, shr in violations:
        print("scenario %s seed %d class %s: %s (%s)" % (name, sd, cls, msg[:600], shr))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    if not violations and errors:
        for e in errors:
            print("ERROR " + e)
        rc = 2
    print("%s %s: %d runs, %d distinct non-trivial, %.0f simulated s, %.1f s wall, rc %d" % (
        prop, tier, cover["evaluations"], cover["distinct_nontrivial"], cover["simulated_seconds"], time.time() - t0, rc))
    return rc


COMMON_ASSUMPTIONS = [
    "the simulated kernel behaves like Linux for the calls the library makes (edge-triggered epoll, TCP, UDP, eventfd, signalfd)",
    "seeded sampling: a clean batch is evidence, not proof",
    "only the epoll back end is built here (kqueue, libev, boost, CFRunLoop and Windows back ends and TLS are not compiled)",
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode", choices=["run", "replay", "build", "setup"])
    ap.add_argument("what", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    try:
        if a.mode == "run":
            return run_check(a.what, a.tier if a.tier in ("quick", "thorough") else "quick", a.seconds, a.workers)
        if a.mode == "build":
            for s in CHECKS[a.what]["scenarios"]:
                print(s["name"], build(s["file"], s.get("variant", "asan")))
            return 0
        if a.mode == "setup":  # fills the build cache; every check rebuilds whatever the cache does not hold
            todo = sorted({(s["file"], s.get("variant", "asan")) for c in CHECKS.values() for s in c["scenarios"]})
            with concurrent.futures.ThreadPoolExecutor(3) as ex:
                for k, f in [(k, ex.submit(build, *k)) for k in todo]:
                    print(k, os.path.basename(f.result()))
            return 0
        if a.mode == "replay":
            name = next(l.split()[1] for l in open(a.what) if l.startswith("scenario "))
            for spec in CHECKS.values():
                for s in spec["scenarios"]:
                    if s["name"] == name:
                        exe = build(s["file"], s.get("variant", "asan"))
                        r = sh([exe, "replay", a.what] + (["--verbose"] if a.verbose else []), env=env())
                        print(r.stdout)
                        return r.returncode
            return 4
    except BuildError as ex:
        print("ERROR build: %s" % ex)
        return 2


if __name__ == "__main__":
    sys.exit(main())
