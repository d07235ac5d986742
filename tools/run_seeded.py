#!/usr/bin/env python3
"""Runs the quick check of its property against every planted change (in a scratch copy of /repo) and prints which are caught.

  run_seeded.py [--jobs N] [--seconds S] [ID...]
"""
import argparse, concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--jobs", type=int, default=2)
ap.add_argument("--seconds", type=float)
ap.add_argument("--also", default="", help="other properties to run as well, comma separated")
a = ap.parse_args()


def one(i):
    d = os.path.join(HERE, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="seeded-")
    out = []
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s" % w, shell=True, check=True)
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + w, os.path.join(d, "patch.diff")], cwd="/", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return i, prop, "patch does not apply " + r.stdout[-200:]
        for p in [prop] + [x for x in a.also.split(",") if x]:
            cmd = [sys.executable, os.path.join(HERE, "check.py"), "run", p, "--workers", str(8 // a.jobs)] + (["--seconds", str(a.seconds)] if a.seconds else [])
            ev = tempfile.mkdtemp(prefix="seeded-ev-")
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=ev, VERIF_REPLAYS=ev))
            shutil.rmtree(ev, ignore_errors=True)
            cls = re.findall(r"class (\S+?):? ", r.stdout)
            out.append("%s rc %d %s" % (p, r.returncode, ",".join(sorted(set(cls)))) + ("" if r.returncode in (0, 1) else r.stdout[-500:]))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return i, prop, "; ".join(out)


ids = a.ids or sorted(os.listdir(os.path.join(HERE, "seeded")))
with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
    for i, p, res in ex.map(one, ids):
        print("%-28s %s" % (i, res), flush=True)
