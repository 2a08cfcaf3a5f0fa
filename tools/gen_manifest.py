#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, sys, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(root + '/properties.jsonl')]
notes = json.load(open(root + '/tools/levels.json'))
checks, na = [], []
for p in props:
    if p in notes:
        checks.append({
            "property": p,
            "quick_cmd": f"bash run.sh {p}",
            "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p}",
            "technique": notes[p]["technique"],
            "level": "exploration",
            "level_note": notes[p]["note"],
        })
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "bash run.sh setup",
    "hooks": {
        "guard": "cfg(zok_verif)",
        "enable": "RUSTFLAGS='--cfg zok_verif' (set by run.sh when it builds harness/ with its path dependency on /repo)",
        "source_commits": ["372c62f"],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "One binary (harness/), one family of generated cases per aspect of a property; run.sh <ID> replay <file> re-runs a saved failure; known findings in known_findings.txt.",
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
