"""plant.py  (stdin) : plant a bug and confirm it in a scratch copy.
Sections:  id: / property: / needs: / breaks:  then one or more  @@FILE path / @@OLD / @@NEW  and  @@DEMO python.
Writes /verif/seeded/<id>/ when confirmed; prints what the property's check says (env NOCHECK=1 to skip)."""
import json, os, re, shutil, subprocess, sys
R = "/tmp/plant/repo"
PY = "/opt/venv/bin/python"
txt = sys.stdin.read()
head, *parts = re.split(r"^@@(FILE .*|OLD|NEW|DEMO)\n", txt, flags=re.M)
meta = dict(re.findall(r"^(\w+): (.*)$", head, flags=re.M))
if not os.path.isdir(R):
    os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", R], check=True)
subprocess.run("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=R, check=True)
fn, old, demo = None, None, None
for tag, body in zip(parts[::2], parts[1::2]):
    body = body.rstrip("\n")
    if tag.startswith("FILE"):
        fn = os.path.join(R, tag[5:].strip())
    elif tag == "OLD":
        old = body
    elif tag == "NEW":
        s = open(fn, newline="").read(); crlf = "\r\n" in s; t = s.replace("\r\n", "\n")
        if t.count(old) != 1:
            sys.exit(f"OLD occurs {t.count(old)} times:\n{old}")
        t = t.replace(old, body)
        open(fn, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)
    else:
        demo = body
patch = subprocess.run(["git", "diff"], cwd=R, capture_output=True).stdout
env = dict(os.environ, PYTHONPATH=R, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", QT_QPA_PLATFORM="offscreen", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore")
d = f"/tmp/plant/{meta['id']}"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "wb").write(patch)
open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport warnings\nwarnings.simplefilter('ignore')\n" + demo + "\n")
open(d + "/demo.sh", "w").write('#!/bin/sh\nexport MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump(dict(property=meta["property"], needs=meta["needs"], what_it_breaks=meta["breaks"]), open(d + "/meta.json", "w"), indent=1)
def demo_rc():
    return subprocess.run(["sh", d + "/demo.sh"], cwd=R, env=env, capture_output=True, text=True)
bad = demo_rc()
t = subprocess.run(f"cd {R}/test && {PY} -m pytest -q -x -p no:cacheprovider -n 0 2>/dev/null || true", shell=True, env=env, capture_output=True, text=True) if False else None
out = "/tmp/plant/o.xml"
subprocess.run(f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={out}", shell=True, cwd=R + "/test", env=env, capture_output=True)
subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", "/tmp/plant/o.json", "junit:" + out], capture_output=True)
c = subprocess.run([sys.executable, "/verif/tools/cmp.py", "/tmp/plant/o.json"], capture_output=True, text=True).stdout.strip()
subprocess.run("git checkout -q -- . && git clean -qfd", shell=True, cwd=R)
good = demo_rc()
print("tests:", c[-200:], "| demo patched rc", bad.returncode, "| clean rc", good.returncode)
if not c.endswith("[]") or bad.returncode == 0 or good.returncode != 0:
    print(bad.stdout[-600:], bad.stderr[-600:], "\nCLEAN:", good.stdout[-600:], good.stderr[-900:]); sys.exit("NOT CONFIRMED")
dst = "/verif/seeded/" + meta["id"]
shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst); shutil.rmtree(d)
if not os.environ.get("NOCHECK"):
    subprocess.run(["git", "apply", dst + "/patch.diff"], cwd=R, check=True)
    r = subprocess.run(["./check", meta["property"], "quick"], cwd="/verif", env=dict(env, SWP_REPO=R, VERIF_SEED="1"), capture_output=True, text=True)
    print("check rc", r.returncode, (r.stdout + r.stderr)[-500:])
    subprocess.run("git checkout -q -- .", shell=True, cwd=R)
