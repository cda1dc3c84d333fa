#!/usr/bin/env python3
"""development aid: functions of a crate that no check's evidence lists.  uncovered.py FACTSDIR crate,crate"""
import sys, json, glob, re
sys.path.insert(0, "/verif")
from sa.facts import Facts
cov = set()
for f in glob.glob("/verif/evidence/C*.json"):
    cov |= set(json.load(open(f))["coverage"].get("analysed", []))
cr = sys.argv[2].split(",")
F = Facts(sys.argv[1], cr)
for i in sorted(F.fnline):
    if F.fnline[i] and not any(i.startswith(x) or i.startswith("<" + x) or f" {x}::" in i for x in (c + "::" for c in cr)):
        continue
    fn = F.fn(i)
    if i in cov or not fn or not fn.get("bbs") or fn.get("derived") or "{closure" in i or re.search(r"::_::|__Visitor|__Field|assert_fields|as core::(fmt::Debug|clone::Clone|cmp::(Partial)?Eq|error::Error)|HINT_|serde|promoted|::tests?::|test_utils", i):
        continue
    print(len(fn["bbs"]), i)
