#!/usr/bin/env python3
"""Writes MANIFEST.json from shards.py (claimed checks) and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
import shards
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = shards.CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"],
                       thorough_cmd="python3 run.py %s thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique=c.get("technique", "runtime monitoring: online oracle (reference model) over sanitized executions"),
                       level="exploration",
                       level_note=c.get("level_note", "Exploration: no violation in the generated executions; trusts the reference model, the compiler and the sanitizers. " + "; ".join(c["assumptions"]))))
m = dict(version=1, setup_cmd="python3 -m py_compile run.py shards.py", checks=checks, not_applicable=na,
         notes="Checks compile /repo's current headers themselves; no hooks in /repo are needed because the public interface exposes all container state.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "unclaimed")
