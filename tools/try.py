"""try.py ID... : run the property's quick check (or PID given as ID:PID) against seeded bugs applied to a scratch copy."""
import json, os, subprocess, sys
R = os.environ.get("TRY_REPO", "/tmp/plant/repo")
if not os.path.isdir(R):
    os.makedirs(os.path.dirname(R), exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", R], check=True)
subprocess.run("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=R, check=True)
for a in sys.argv[1:] or sorted(os.listdir("/verif/seeded")):
    b, _, p = a.partition(":")
    b = next((x for x in sorted(os.listdir("/verif/seeded")) if x == b or x.startswith(b + "-")), b)
    d = "/verif/seeded/" + b
    p = p or json.load(open(d + "/meta.json"))["property"]
    if subprocess.run(["git", "apply", d + "/patch.diff"], cwd=R).returncode:
        print(b, "DOES NOT APPLY"); continue
    r = subprocess.run(["./check", p, "quick"], cwd="/verif", env=dict(os.environ, SWP_REPO=R, VERIF_SEED=os.environ.get("VERIF_SEED", "1")), capture_output=True, text=True)
    subprocess.run("git checkout -q -- .", shell=True, cwd=R)
    print(b, p, f"caught x{r.stdout.count(chr(10) + "VIOLATION") + r.stdout.startswith("VIOLATION")}" if r.returncode == 1 else f"rc {r.returncode} MISSED", (r.stdout.strip().splitlines() or [""])[0][:200], flush=True)
