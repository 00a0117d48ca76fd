#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the check modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    n = notes.get(i, {})
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "technique": n.get("technique", "symbolic execution of clang IR of the real sources, each assertion and memory access decided by z3"),
            "level": "proof",
            "level_note": n.get("level_note", "bounded: holds for all values within the bounds in the evidence, says nothing outside them"),
            "evidence_file": "evidence/%s.json" % i,
        })
    elif i in notes and "not_applicable" in n:
        na.append({"property": i, "reason": n["not_applicable"]})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles /repo's current sources itself. See DESIGN.md."}
hooks = notes.get("hooks")
if hooks:
    m["hooks"] = hooks
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
