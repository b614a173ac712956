#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check."""
import json, re, pathlib
V = pathlib.Path(__file__).parent
notes = json.loads((V / "levels.json").read_text())
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in notes["checks"]:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection: seeded search over schedules, delays and faults",
                       "level": "exploration", "level_note": notes["checks"][i]})
    else:
        na.append({"property": i, "reason": notes["not_applicable"].get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": notes["notes"]}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
