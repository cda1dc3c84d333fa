"""writes sa/wire.json: the format (tags, order of items) of every encoded type of the tree the newest facts are of; run by hand when formats are added"""
import glob
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from sa.facts import Facts
from sa.rule import Check
import sa.rules.C47 as R
d = sorted(glob.glob(os.path.join(os.path.dirname(__file__), "..", "build", "facts-*")), key=os.path.getmtime)[-1]
F = Facts(d, [x.replace("-", "_") for x in R.CRATES])
c = Check(F, "C47")
out = {}
for ty, fs in sorted(R.pairs(F).items()):
    adt, enc = F.adts.get(R.plain(ty)), fs.get("encode_to") or fs.get("using_encoded")
    if adt is None or not adt["v"] or enc is None or R.plain(ty) in R.SKIP or ty.split("::")[0] in ("mlwitness", "serialization", "serialization_tagged", "storage"):
        continue
    out[R.plain(ty)] = {adt["v"][k]["n"]: R.form(adt, k, its) for k, its in R.encoded(c, ty, adt, enc).items()}
with open(R.WIRE, "w") as f:
    f.write("{\n" + ",\n".join(f" {json.dumps(k)}: {json.dumps(v, sort_keys=True)}" for k, v in sorted(out.items())) + "\n}\n")
print(len(out), "types")
