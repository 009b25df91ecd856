#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from the property list, the index of check modules and the notes below."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
index = json.loads((V / "pbt" / "index.json").read_text())
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
NOTES = json.loads((V / "tools" / "manifest_notes.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    module = V / "pbt" / "checks" / (index.get(i, "?") + ".py")
    if module.exists():
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3-vt pbt/run.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3-vt pbt/run.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + n["technique"], "level": "exploration", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import hypothesis'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Every check imports nion.utils from /repo's working tree in fresh processes (pure Python, nothing is built); python3-vt pbt/run.py Cxx --replay FILE repeats a saved case."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
