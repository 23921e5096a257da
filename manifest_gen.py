#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
from checks import PROPS  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for pid in ids:
    if pid not in PROPS:
        continue
    s = PROPS[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "VERIF_TIER=quick python3 check.py " + pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
        "technique": s.get("technique", "property-based testing (rapid) against a reference model"),
        "level": "exploration",
        "level_note": s.get("note", "Generated-input search; shows absence of violations only on the generated cases."),
    })
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "no check has been built for it yet"} for p in ids if p not in PROPS],
    "notes": "Each check compiles its harness (harness/<pkg>) against /repo's working tree through a go build overlay and runs it with a fixed seed derived from VERIF_SEED. There are no hooks in /repo.",
}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
