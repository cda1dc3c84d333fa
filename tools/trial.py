#!/usr/bin/env python3
"""development aid: run checks against a scratch copy of /repo with an edit applied.
trial.py [-c C01,C02] (-p patch.diff | -r FILE OLD NEW [-r ...])   -> verdict per check"""
import sys, os, subprocess, argparse, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-c", default="")
ap.add_argument("-p", action="append", default=[])
ap.add_argument("-r", nargs=3, action="append", default=[])
ap.add_argument("-v", action="store_true")
ap.add_argument("--slot", default="0")
o = ap.parse_args()
R, B = f"/tmp/trial{o.slot}/repo", f"/tmp/trial{o.slot}/build"
os.makedirs(B, exist_ok=True)
subprocess.run(["rsync", "-a", "--delete", "--exclude", "/target", "/repo/", R + "/"], check=False) if shutil.which("rsync") else subprocess.run(f"mkdir -p {R} && cd /repo && git ls-files -z | xargs -0 cp -u --parents -t {R}; cp -rn /repo/.git {R}/ 2>/dev/null; cd {R} && git checkout -q -- . && git reset -q --hard $(git -C /repo rev-parse HEAD)", shell=True)
for p in o.p:
    r = subprocess.run(["git", "apply", os.path.abspath(p)], cwd=R)
    if r.returncode:
        sys.exit("patch failed")
for f, a, b in o.r:
    q = os.path.join(R, f)
    s = open(q).read()
    a, b = a.replace("\\n", "\n"), b.replace("\\n", "\n")
    if a not in s:
        sys.exit(f"not found in {f}: {a}")
    open(q, "w").write(s.replace(a, b, 1))
env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=B)
for c in o.c.split(","):
    p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), c], env=env, capture_output=True, text=True)
    print(c, {0: "quiet", 1: "CAUGHT"}.get(p.returncode, f"exit {p.returncode}"))
    if o.v or p.returncode == 2:
        print("\n".join(x[:400] for x in p.stdout.splitlines()[-40 if p.returncode == 2 else -12:]))
