#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the lists below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
# property -> level note
CLAIMED = json.load(open(os.path.join(V, "tools", "claimed.json")))
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for p in props:
    if p in CLAIMED:
        c = CLAIMED[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                       "technique": c.get("technique", "contract-based deductive verification (gover: contracts on the Go functions, verification conditions discharged by SMT)"),
                       "level": c.get("level", "proof"), "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
