#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "ifc_rs/src/"
P = []

def p(id, title, statement, over, text, why, files, mech, observe, tech, note, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f if not f.startswith("/") else f[1:] for f in files],
            **({"state": [dict(name=a, meaning=b, where=S + c) for a, b, c in state]} if state else {}),
            mechanism=[dict(name=a, where=S + b) for a, b in mech],
            observe_at=observe, hook_needed=None),
        _tech=tech, _note=note))

exec(open(os.path.join(R, "tools", "table.py")).read())

with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if not k.startswith("_")}) + "\n")
m = dict(version=1, setup_cmd="./run.sh build",
    hooks=dict(guard="none", enable="no hooks: the checks use the public interface of the crate only", source_commits=[]),
    checks=[dict(property=x["id"], quick_cmd=f"./run.sh {x['id']} quick", thorough_cmd=f"./run.sh {x['id']} thorough",
        evidence_file=f"evidence/{x['id']}.json", technique=x["_tech"], level="model_checking", level_note=x["_note"]) for x in P],
    not_applicable=[])
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    assert x["statement"].count(". ") <= 2, x["id"]
