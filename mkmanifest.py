#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of finished checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
T = {}
exec(open(os.path.join(here, "techniques.py")).read())
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(here, "mon/src/bin", p.lower() + ".rs")) and p in T:
        tech, note = T[p]
        checks.append({
            "property": p,
            "quick_cmd": f"./check.sh {p} quick",
            "thorough_cmd": f"./check.sh {p} thorough",
            "technique": tech,
            "level": "exploration",
            "level_note": note,
        })
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "cd mon && cargo build --offline --locked --release --quiet --lib --target-dir ../target",
    "checks": checks,
    "not_applicable": na,
    "notes": "Runtime monitoring only; see DESIGN.md. No hooks in /repo are needed.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
