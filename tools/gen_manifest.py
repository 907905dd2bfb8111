#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/scenarios.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import scenarios
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("Seeded search: simulated executions with injected faults against the real library code; no violation on the executed seeds. "
        "Trusts the reference model in sim/, the compiler, Eigen and pinocchio. ")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in scenarios.PARTS:
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
                           technique=scenarios.TECH.get(i, scenarios.TECH_DEFAULT), level="exploration", level_note=NOTE + scenarios.INFO[i]["nontrivial"]))
    else:
        na.append(dict(property=i, reason=scenarios.NA.get(i, "no simulated scenario decides it yet")))
m = dict(version=1, setup_cmd="python3 tools/build.py all", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="No hook was needed in /repo: faults enter through the library's own interfaces (DifferentiableFunction, saturation::Base, streams, line searches) and through the simulator's allocator and thread runtime.", source_commits=[]),
         notes="tools/check.py builds, searches, replays and minimises; DESIGN.md describes the simulator.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
