#!/usr/bin/env python3
"""Writes MANIFEST.json and checks.json from tools/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS

ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks, cj = [], {}
for i in ids:
    c = CHECKS.get(i, {})
    roots = c.get("roots", [])
    level = c.get("level", "exploration")
    if level == "proof":
        tech = "contracts on the Go functions (translated mechanically on each run), every obligation discharged by Verus; bounded search of the real code for failing inputs"
    elif roots:
        tech = "contracts on the Go functions it depends on, discharged by Verus, for the proved part; bounded search of the real code against a reference definition for the rest (labelled bounded)"
    else:
        tech = "bounded search of the real code against a reference definition, standing in for contracts (labelled bounded, not proved)"
    e = {"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} thorough",
         "technique": tech, "level": level, "level_note": c.get("note", "Bounded: the cases of the search only.")}
    if c.get("theorems"):
        e["theorems"] = c["theorems"]
    checks.append(e)
    cj[i] = {"roots": roots, "specs": c.get("specs", []), "level": level, "assumptions": c.get("assumptions", [])}
    for k in ("timeout", "unreachable", "variant"):
        if k in c:
            cj[i][k] = c[k]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "verif", "enable": "no hooks are needed: the checks read and build the unchanged sources of /repo", "source_commits": []},
     "checks": checks, "not_applicable": [],
     "notes": "Contracts are in contracts/*.ct and their spec functions and lemmas in contracts/*.rs; go2verus/ translates the Go functions on every run; search/ holds the bounded searches. See DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
json.dump(cj, open(f"{V}/checks.json", "w"), indent=1)
open(f"{V}/checks.json", "a").write("\n")
