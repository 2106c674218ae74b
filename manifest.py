#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the claims below."""
import json, os, re, subprocess
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
have = set()
for d, _, fs in os.walk(os.path.join(here, "harness")):
    for f in fs:
        if f.endswith(".go"):
            have |= set(re.findall(r"^func H_([A-Z0-9]+)_\w+\(\)", open(os.path.join(d, f)).read(), re.M))
NA = {}
NOTE = {}
if os.path.exists(os.path.join(here, "claims.json")):
    c = json.load(open(os.path.join(here, "claims.json")))
    NA, NOTE = c.get("not_applicable", {}), c.get("notes", {})
m = {"version": 1, "setup_cmd": "bash engine/build.sh /verif/bin/semsym", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of the real code's SSA with an SMT solver (z3), bounded; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": NOTE.get(i, "Holds for all values within the bounds stated on each harness (see evidence and DESIGN.md); trusts the SSA interpreter and z3, and the storage model, both cross-checked natively."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet")})
m["notes"] = "No hooks in /repo: harnesses are overlaid as packages under internal/zzverif."
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
