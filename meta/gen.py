#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = ("static analysis: path-sensitive abstract interpretation of the SSA form of /repo's current source "
        "(value numbering, symbolic memory with frame conditions, loop summaries, difference-bound/congruence facts); ")
NOTE = ("Decided on every abstract path from an arbitrary receiver state, without running the code and without a solver. "
        "Loops are summarised, not unrolled; what cannot be decided is reported, never skipped. ")

P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note="", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, tech=tech, note=note, observe=observe))

NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, reason=reason))

exec(open(os.path.join(root, "meta", "table.py")).read())

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p.get("observe"):
            d["anchors"]["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")

m = dict(version=1, setup_cmd="./check.sh setup", checks=[], not_applicable=[])
for p in P:
    if "reason" in p:
        m["not_applicable"].append(dict(property=p["id"], reason=p["reason"]))
    else:
        m["checks"].append(dict(property=p["id"], quick_cmd="./check.sh " + p["id"],
                                thorough_cmd="./check.sh " + p["id"] + " thorough",
                                technique=TECH + p["tech"], level="other", level_note=NOTE + p["note"],
                                evidence_file="evidence/" + p["id"] + ".json"))
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
