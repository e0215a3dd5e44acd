#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "bounded-exhaustive exploration of the real code against a reference model"
checks = {}
def c(id, tech, note): checks[id] = (tech, note)
exec(open(os.path.join(root, "tools/checks.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./run.sh build",
     "checks": [{"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
                 "technique": checks[p][0], "level": "model_checking", "level_note": checks[p][1]} for p in props if p in checks],
     "not_applicable": [{"property": p, "reason": NA.get(p, "the check is not built yet")} for p in props if p not in checks],
     "notes": "No hooks: every check uses the public API of /repo only. One Rust crate (mc/) is built twice per check: with internal assertions and overflow checks, and as plain release without std."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
