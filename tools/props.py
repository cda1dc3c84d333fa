#!/usr/bin/env python3
"""The single source of properties.jsonl and MANIFEST.json: run it to regenerate both.
A property is claimed when sa/rules/<id>.py exists; otherwise its `na` reason goes to not_applicable."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
SUM = "path-sensitive value-flow summaries over compiler MIR"


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over.split(), text=" ".join(text.split()), why=" ".join(why.split()), files=files.split(), mech=mech,
                  technique=technique or SUM, note=" ".join((note or "").split()), na=na))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())


def main():
    assert len({p["id"] for p in P}) == len(P)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
            for x in p["files"]:
                if not os.path.exists("/repo/" + x):
                    print("no such file", p["id"], x)
    checks, na = [], []
    for p in sorted(P, key=lambda p: p["id"]):
        if os.path.exists(os.path.join(HERE, "sa", "rules", p["id"] + ".py")):
            assert not p["na"], p["id"]
            checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --thorough", "evidence_file": f"evidence/{p['id']}.json",
                           "technique": p["technique"], "level": "other",
                           "level_note": p["note"] or "static: every path of the functions the rule names is enumerated from the type-checked MIR of the current tree and compared with the required behaviour; trusted: rustc's MIR, the models of library functions, the rule itself"})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "no static rule that decides it has been built"})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed,", len(na), "not applicable")


main()
