#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the engines' registry and NOTES below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import engines
reg, notes = {}, {}
for m in engines.modules():
    reg.update(m.REGISTRY)
    notes.update(getattr(m, "NOTES", {}))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in reg:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p,
                       "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": "TLA+ specification model-checked with TLC; conformance: " + notes[p][0],
                       "level": "model_checking", "level_note": notes[p][1]})
    else:
        na.append({"property": p, "reason": "not built yet"})
out = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks}
if na:
    out["not_applicable"] = na
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
