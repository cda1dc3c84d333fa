#!/usr/bin/env python3
"""development aid: run every trial edit of trials/<ID>.txt against check <ID> in scratch copies, 4 at a time.
format of a trial file: blocks separated by lines '=== mut|ref FILE' ; old text ; '---' ; new text ; further '+++ FILE' blocks
belong to the same edit.  mut edits must be caught, ref edits (behaviour preserving) must stay quiet."""
import sys, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[2] if len(sys.argv) > 2 else None


def load(pid):
    out = []
    cur = None
    for line in open(f"{HERE}/trials/{pid}.txt"):
        m = re.match(r"^(===|\+\+\+) (?:(mut|ref) )?(\S+)(?: # (.*))?$", line.rstrip("\n"))
        if m:
            if m[1] == "===":
                out.append((m[2], m[4] or "", []))
            out[-1][2].append([m[3], "", None])
            cur = out[-1][2][-1]
        elif line.rstrip("\n") == "---" and cur[2] is None:
            cur[2] = ""
        elif cur[2] is None:
            cur[1] += line
        else:
            cur[2] += line
    return out


import queue
slots = queue.Queue()
for i in range(int(os.environ.get("SLOTS", "4"))):
    slots.put(i)


def run(job):
    pid, k, (kind, label, edits) = job
    s = slots.get()
    try:
        R, B = f"/tmp/trial{s}/repo", f"/tmp/trial{s}/build"
        os.makedirs(B, exist_ok=True)
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "/target", "/repo/", R + "/"], check=True)
        for f, a, b in edits:
            q = os.path.join(R, f)
            t = open(q).read()
            a, b = a.rstrip("\n"), (b or "").rstrip("\n")
            if a not in t:
                return f"{pid} {k:2} {kind} BADEDIT {f}: {a[:60]!r}"
            open(q, "w").write(t.replace(a, b or "", 1))
        env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=B)
        p = subprocess.run([sys.executable, HERE + "/check.py", pid], env=env, capture_output=True, text=True)
        good = {"mut": 1, "ref": 0}[kind] == p.returncode
        built = "error" in p.stdout + p.stderr and "could not compile" in p.stdout + p.stderr
        why = "" if good and kind == "ref" else " | ".join(x for x in (p.stdout + p.stderr).splitlines() if x.startswith(pid + ":") and "rule instances" not in x)[:160]
        return f"{pid} {k:2} {kind} {'ok  ' if good and not built else 'NOCOMPILE' if built else 'BAD '} rc={p.returncode} {label or edits[0][2].strip()[:50]!r} {why}" + ("" if not built else "\n" + "\n".join(x for x in (p.stdout + p.stderr).splitlines() if "error" in x)[:500])
    finally:
        slots.put(s)


jobs = []
for pid in sys.argv[1].split(","):
    for k, t in enumerate(load(pid)):
        if only is None or str(k) in only.split(","):
            jobs.append((pid, k, t))
import json
RES = HERE + "/trials/results.json"
got = json.load(open(RES)) if os.path.exists(RES) else {}
if only is None:
    for pid in sys.argv[1].split(","):
        got[pid] = {}
with ThreadPoolExecutor(8) as ex:
    for (pid, k, t), r in zip(jobs, ex.map(run, jobs)):
        print(r, flush=True)
        got.setdefault(pid, {})[str(k)] = [t[0], t[1] or t[2][0][2].strip()[:50], "ok  rc" in r]
json.dump(got, open(RES, "w"), indent=0, sort_keys=True)
