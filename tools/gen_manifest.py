#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of registered checks."""
import json, os, re, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = set()
for f in os.listdir(here + "/checker"):
    if f.endswith(".go"):
        ids |= set(re.findall(r'\breg\("(C\d\d)"', open(f"{here}/checker/{f}").read()))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
notes = json.load(open(here + "/tools/level_notes.json"))
common = notes["common"]
m = {"version": 1,
     "setup_cmd": "bash ./setup.sh",
     "checks": [], "not_applicable": [],
     "notes": "Static analysis only: trace-partitioned abstract interpretation over go/ssa plus type and table rules (checker/). No hooks in /repo."}
for p in props:
    i = p["id"]
    if i in ids:
        n = notes.get(i, {})
        m["checks"].append({
            "property": i,
            "quick_cmd": f"bash ./check.sh {i} quick",
            "thorough_cmd": f"bash ./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": n.get("technique", "path-sensitive abstract interpretation over SSA"),
            "level": "other",
            "level_note": (n.get("note", "") + " " + common).strip(),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": notes.get(i, {}).get("na", "no check built yet")})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
