#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from properties.jsonl, checks.py and seeded/."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/tools")
from checks import CHECKS
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
lv = ["| id | property | level | what decides it |", "|---|---|---|---|"]
for p in props:
    c = CHECKS.get(p["id"], {})
    level = c.get("level", "exploration")
    how = c.get("note", "The bounded search only.").replace(" Assumed: the models of Go strings, slices, maps and standard library functions in contracts/prelude.rs, the go2verus translation, Verus and Z3.", "")
    if c.get("theorems"):
        how += " Theorems: " + "; ".join(c["theorems"]) + "."
    lv.append(f"| {p['id']} | {p['title']} | {level} | {how} |")
sd = ["| bug | property | needs | what it breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    sd.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
s = open(f"{V}/DESIGN.md").read()
def put(s, n, t):
    return re.sub(rf"<!-- {n} -->.*?<!-- end {n} -->", lambda _: f"<!-- {n} -->\n" + "\n".join(t) + f"\n<!-- end {n} -->", s, flags=re.S)
s = put(put(s, "levels", lv), "seeded", sd)
open(f"{V}/DESIGN.md", "w").write(s)
