#!/usr/bin/env python3
"""addfix.py PID WHAT: record /repo's HEAD commit as the repair of a genuine defect of property PID."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"findings": []}
h = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h"], text=True).strip()
pid, what = sys.argv[1:3]
d["findings"].append(dict(status="fixed", property=pid, commit=h, what=what, line=f"fixed: property={pid} {h} {what}"))
json.dump(d, open(p, "w"), indent=1)
