#!/usr/bin/env python3
"""development aid: seed.py FILE  -- turn a seed description into /verif/seeded/<id>/.
Description: lines 'id:', 'property:', 'needs:', 'breaks:', then sections '=== FILE' old '---' new (as in trials),
'@@@ deps' lines, '@@@ main' demo program."""
import sys, os, re, subprocess, json, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
for path in sys.argv[1:]:
    head, edits, deps, main, mode, cur = {}, [], "", "", "head", None
    for line in open(path):
        l = line.rstrip("\n")
        if l.startswith("=== "):
            cur = [l[4:], "", None]
            edits.append(cur)
            mode = "edit"
        elif l == "@@@ deps":
            mode = "deps"
        elif l == "@@@ main":
            mode = "main"
        elif mode == "head":
            k, _, v = l.partition(":")
            head[k.strip()] = v.strip()
        elif mode == "deps":
            deps += line
        elif mode == "main":
            main += line
        elif l == "---" and cur[2] is None:
            cur[2] = ""
        elif cur[2] is None:
            cur[1] += line
        else:
            cur[2] += line
    if not os.path.exists(W):
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    subprocess.run(f"git fetch -q origin && git checkout -q --detach {subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()} && git checkout -q -- .", shell=True, cwd=W, check=True)
    for f, a, b in edits:
        q = os.path.join(W, f)
        t = open(q).read()
        a, b = a.rstrip("\n"), (b or "").rstrip("\n")
        assert t.count(a) >= 1, (f, a)
        open(q, "w").write(t.replace(a, b, 1))
    d = os.path.join(HERE, "seeded", head["id"])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/deps.txt", "w").write(deps)
    open(d + "/main.rs", "w").write(main)
    shutil.copy(os.path.join(HERE, "tools", "demo.sh"), d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": head["property"], "needs": head["needs"], "what_it_breaks": head["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W)
    print(head["id"], len(diff))
