#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
NOTE = {}
exec(open(f"{here}/tools/notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE:
        checks.append({
            "property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, " + NOTE[i][0],
            "level": "exploration", "level_note": NOTE[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check is registered for it yet (work in progress).")})
json.dump({"version": 1, "setup_cmd": "./sim/build.sh >/dev/null 2>&1",
           "hooks": {"guard": "none", "enable": "no hooks in /repo: the simulator takes over below the code, at the libc interface", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(f"{here}/MANIFEST.json", "w"), indent=1)
