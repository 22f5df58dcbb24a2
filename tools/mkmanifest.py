#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
from registry import CHECKS
NOTES = {}
try:
    from registry import NOTES, NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique=NOTES.get(i, ("TLA+ model checked with TLC; its transitions replayed in the real code and recorded histories of the real code validated against it", ""))[0],
                           level="model_checking",
                           level_note=NOTES.get(i, ("", ""))[1] or "Exhaustive in the specification within the stated small bounds, every emitted model transition replayed in the library, plus seeded random histories of the library judged event by event by TLC; assumes the projection of floats to the specification's integer grid (tolerance 1e-6)."))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Language: TLA+ (TLC). No hooks are needed: the library is sequential and its public API exposes the abstract state.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
