#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # properties with a check
NA = []  # properties without

def prop(id, title, statement, over, text, tests, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  technique=technique, note=note, observe=observe))

def na(id, title, statement, over, text, tests, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, reason=reason))

exec(open(os.path.join(here, "tools", "props.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P + NA:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["tests"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        for fn in p["files"]:
            assert os.path.exists(os.path.join("/repo", fn)), fn
        f.write(json.dumps(d) + "\n")

m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "bash run.sh " + p["id"], "thorough_cmd": "bash run.sh " + p["id"],
                 "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in P],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": "Every check is static analysis of /repo's current source (checker/, built by setup.sh): go/packages + go/ssa, whole program, no execution of the code under test. Quick and thorough run the same exhaustive analysis."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(P), "claimed", len(NA), "not applicable")
