#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TEST = "The suite runs eight fixed small models and compares only the number of nonlinear iterations; "

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism [(name, where)], technique, note
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=TEST + p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
NA = globals().get("NOT_APPLICABLE", [])
M = dict(version=1, setup_cmd="python3-vt -m vpbt.build plain omp asan",
         checks=[dict(property=p["id"], quick_cmd="python3-vt check.py %s --quick" % p["id"], thorough_cmd="python3-vt check.py %s --thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"]) for p in P if p["id"] not in {n["property"] for n in NA}],
         not_applicable=NA)
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
import subprocess
subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "design_gen.py")], check=True)
