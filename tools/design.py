#!/usr/bin/env python3
"""puts DESIGN.md together"""
import json, os, re, sys, io, contextlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
with contextlib.redirect_stdout(io.StringIO()):
    from tools.props import P
out = [open(HERE + "/tools/design_head.md").read()]
res = json.load(open(HERE + "/trials/results.json")) if os.path.exists(HERE + "/trials/results.json") else {}
out.append("## Property by property\n")
for p in sorted(P, key=lambda p: p["id"]):
    f = f"{HERE}/sa/rules/{p['id']}.py"
    out.append(f"### {p['id']} {p['title']}\n")
    if p["na"]:
        out.append("Not applicable: " + p["na"] + "\n")
        continue
    if not os.path.exists(f):
        out.append("No rule that decides it has been built.\n")
        continue
    t = open(f).read()
    m = re.match(r'"""(.*?)"""', t, re.S)
    c = re.search(r"CRATES = \[(.*?)\]", t, re.S)
    out.append(" ".join(m[1].split()) if m else "")
    parts = re.search(r"PARTS = \[(.*?)\]", t, re.S)
    if parts:
        ds = []
        for n in re.findall(r"\w+", parts[1]):
            d = re.search(rf'def {n}\(c\):\n\s+"""(.*?)"""', t, re.S)
            ds.append(n.strip("_") + (f" ({' '.join(d[1].split())})" if d else ""))
        out.append("Groups of obligations: " + "; ".join(ds) + ".")
    out.append(f"Over: {p['text']}.  Crates analysed: {c[1].replace(chr(34), '') if c else 'all'}.  Why tests do not settle it: {p['why']}")
    if p["note"]:
        out.append("Limits: " + p["note"])
    r = res.get(p["id"])
    if r:
        mu = [v for v in r.values() if v[0] == "mut"]
        rf = [v for v in r.values() if v[0] == "ref"]
        out.append(f"Trials: {sum(v[2] for v in mu)} of {len(mu)} planted changes reported, {sum(v[2] for v in rf)} of {len(rf)} behaviour-preserving edits left quiet (`trials/{p['id']}.txt`)."
                   + "".join(f"  Missed: {v[1]}." for v in mu if not v[2]) + "".join(f"  Alarm on: {v[1]}." for v in rf if not v[2]))
    out.append("")
out.append("## Planted bugs (`seeded/`)\n")
out.append("Each passes the stable tests, and is demonstrated by its `demo.sh`.  `caught` is the result of the last vcheck or of running the check on the patched tree.\n")
out.append("| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
st = json.load(open(HERE + "/trials/seeds.json")) if os.path.exists(HERE + "/trials/seeds.json") else {}
for s in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(f"{HERE}/seeded/{s}/meta.json"))
    out.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {st.get(s, m['property'])} |")
open(HERE + "/DESIGN.md", "w").write("\n".join(out) + "\n")
