#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
ids = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 setup.py",
     "checks": [], "not_applicable": []}
NA = {}
for p in ids:
    i = p["id"]
    if i in PROPS:
        q = PROPS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": q.get("technique", "explicit-state exploration of the real code: every operation sequence up to a bound, against a reference model"),
            "level": q.get("level", "model_checking"),
            "level_note": q.get("note", "Exhaustive within the stated bounds on the real implementation (no abstraction); values outside the alphabet and longer histories are not covered. Trusts the compiler, AddressSanitizer and the reference model in the harness."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet (work in progress)")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
