"""Refresh planted patches whose context moved: patch --binary with fuzz in a scratch copy, then a new diff against HEAD."""
import subprocess, glob, os, shutil, sys
R = "/tmp/plant/rebase"
subprocess.run(["rm", "-rf", R]); os.makedirs("/tmp/plant", exist_ok=True)
subprocess.run(["cp", "-a", "/repo", R], check=True)
for d in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    if subprocess.run(["git", "-C", R, "apply", "--check", d], capture_output=True).returncode == 0:
        continue
    r = subprocess.run(["patch", "--binary", "-p1", "-F3", "-d", R, "-i", d], capture_output=True, text=True)
    if r.returncode:
        print("CANNOT", d, r.stdout); subprocess.run(["git", "-C", R, "checkout", "-q", "."]); continue
    subprocess.run("find . -name '*.orig' -delete", shell=True, cwd=R)
    new = subprocess.run(["git", "-C", R, "diff"], capture_output=True).stdout
    open(d, "wb").write(new)
    subprocess.run(["git", "-C", R, "checkout", "-q", "."])
    print("rebased", d)
