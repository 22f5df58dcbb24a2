"""onemut.py MUTANTS.json FILE:LINE[:n] PID... : run checks on a copy of /repo with that mutant."""
import json, os, shutil, subprocess, sys, tempfile
ms = json.load(open(sys.argv[1]))
p = sys.argv[2].split(":")
c = [m for m in ms if m["file"] == p[0] and m["line"] == int(p[1])]
for m in ([c[int(p[2])]] if len(p) > 2 else c):
    d = tempfile.mkdtemp(prefix="om", dir="/tmp/w")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    f = os.path.join(d, "swprocess", m["file"])
    b = open(f, newline="").read().replace("\r\n", "\n").encode()
    assert b[m["a"]:m["z"]].decode() == m["old"], "stale mutant"
    open(f, "wb").write((b[:m["a"]] + m["new"].encode() + b[m["z"]:]).replace(b"\n", b"\r\n"))
    for pid in sys.argv[3:]:
        r = subprocess.run(["/opt/venv/bin/python", "check.py", pid], cwd="/verif", env=dict(os.environ, SWP_REPO=d), stdout=subprocess.PIPE, text=True)
        print(m["file"], m["line"], repr(m["old"][:50]), "->", repr(m["new"][:50]), pid, "caught" if r.returncode == 1 else f"rc {r.returncode}", flush=True)
        if r.returncode == 1:
            print([x for x in r.stdout.splitlines() if "violates" in x or "differ" in x or ":" in x][:2])
    shutil.rmtree(d)
