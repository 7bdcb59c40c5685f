#!/usr/bin/env python3
"""Writes ../MANIFEST.json from ../checks.py and ../properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --build-only",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 run.py %s --tier quick" % i,
        "thorough_cmd": "python3 run.py %s --tier thorough" % i,
        "technique": CHECKS[i].get("technique", "property-based testing with an own choice-sequence engine (shrinking, replay); thorough tier adds libFuzzer"),
        "level": "exploration",
        "level_note": CHECKS[i].get("note", CHECKS[i]["rule"]),
    } for i in ids if i in CHECKS],
    "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in CHECKS],
    "notes": "All harnesses are header-only clients of /repo; no hooks in /repo. known_findings.txt lists repaired and known defects.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
