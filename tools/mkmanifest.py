#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
M = "runtime monitoring: "
# id -> (technique, level note)
C = {}
exec(open(os.path.join(root, "tools", "claims.py")).read())
checks = []
for p in props:
    i = p["id"]
    if i in C:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": M + C[i][0], "level": C[i][2] if len(C[i]) > 2 else "exploration", "level_note": C[i][1]})
na = [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in C]
m = {"version": 1, "setup_cmd": "./check.sh --build",
     "hooks": {"guard": "none", "enable": "no hooks: everything observed is public API, stdout, exit status and the waveform file", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "One harness (harness/, crate tsmon) drives the real reader, expander, engine, waveform writer, command-line program and viewer; an independent reference monitor decides every record. Replay: ./check.sh x --replay ID SEED INDEX. Known findings and fixes: known-findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
