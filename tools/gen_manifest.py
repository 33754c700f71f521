#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ENUM = "explicit enumeration of a bounded input/configuration space on the real code (stateless model checking), every point compared with an exact reference model"
C = {}
def chk(id, level, technique, note):
    C[id] = {"property": id, "quick_cmd": f"./check {id} quick", "thorough_cmd": f"./check {id} thorough",
             "evidence_file": f"evidence/{id}.json", "technique": technique, "level": level, "level_note": note}
exec(open(os.path.join(V, "tools", "manifest_checks.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": NA.get(p, "check under construction")} for p in props if p not in C]
m = {"version": 1, "setup_cmd": "./setup", "checks": [C[p] for p in props if p in C], "not_applicable": na, "notes": NOTES}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(C), "checks", len(na), "n/a")
