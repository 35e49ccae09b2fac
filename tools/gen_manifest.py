#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks (those with a binary source)."""
import json, os, glob
R = "/verif"
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
built = {os.path.basename(f)[:-3].upper() for f in glob.glob(R + "/harness/*/src/bin/c*.rs")}
NOTES = json.load(open(R + "/tools/level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                       "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds its binary from /repo's working tree with cargo (offline) and runs generated cases; see DESIGN.md."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not built")
