#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [],
     "notes": "Deterministic simulation: crab's unmodified sources run on a simulated kernel substituted at link time (ld --wrap), so /repo needs no hooks. See DESIGN.md."}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({
            "property": p, "quick_cmd": "python3 check.py run %s --tier quick" % p, "thorough_cmd": "python3 check.py run %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": "deterministic simulation with fault injection: " + c["how"],
            "level": "exploration",
            "level_note": "Seeded search over schedules and faults on the real library code over a simulated kernel; sampling, not proof. "
                          "Trusts the simulated kernel's model of Linux and the scenario's oracle." + (" " + c["note"] if c.get("note") else "")})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")})
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), len(m["not_applicable"]))
