#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (the single source)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/libcommute/"
EX, LO = I + "expression/", I + "loperator/"
P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), note="", state=None, technique=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": list(over), "text": text}, why_tests_cant=why, anchors=a,
                  _note=note, _technique=technique or "property-based testing"))


exec(open(os.path.join(V, "tools", "properties.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")

checks = []
for p in P:
    if not glob.glob(os.path.join(V, "harness", "checks", p["id"] + "_*.cpp")):
        continue
    checks.append(dict(property=p["id"],
                       quick_cmd=f"python3 run_check.py {p['id']} quick",
                       thorough_cmd=f"python3 run_check.py {p['id']} thorough",
                       technique=p["_technique"], level="exploration", level_note=p["_note"]))
claimed = {c["property"] for c in checks}
json.dump(dict(
    version=1,
    setup_cmd="python3 -c \"print('checks build what they need from /repo/include')\"",
    checks=checks,
    not_applicable=[dict(property=p["id"], reason="no check built yet") for p in P if p["id"] not in claimed],
    notes="Every check is 'run_check.py <id> <tier>': it compiles harness/checks/<id>_*.cpp against /repo/include "
          "in a sanitizer and in a release configuration, runs generated cases and shrinks failures. No hooks in /repo."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
