#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist under mc/checks."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
INFO = json.load(open(os.path.join(V, "mc", "checks", "info.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = INFO.get(p, {})
    if not i.get("note") or not os.path.exists(os.path.join(V, "mc", "checks", p.lower())):
        na.append({"property": p, "reason": i.get("na", "not built yet: the check planned in DESIGN.md for this property is still to be written")})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "./check.sh %s quick" % p,
        "thorough_cmd": "./check.sh %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": i["technique"],
        "level": "model_checking",
        "level_note": i["note"],
    })
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "Checks rebuild from /repo's working tree: mc/instr rewrites a copy of the sources so that synchronisation, time, randomness and map iteration go through a controlled scheduler, and compiles it with the harness through go build -overlay. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
