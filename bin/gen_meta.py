#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level="exploration", claimed=True, reason="", observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, level=level, claimed=claimed, reason=reason, observe=observe or []))
exec(open(os.path.join(V, "bin", "properties.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
checks, na = [], []
for p in P:
    have = os.path.exists(os.path.join(V, "harness", p["id"].lower() + "_test.go"))
    if p["claimed"] and have:
        checks.append(dict(property=p["id"], quick_cmd="python3 bin/check.py %s" % p["id"],
            thorough_cmd="VERIF_TIER=thorough python3 bin/check.py %s --thorough" % p["id"],
            technique=p["technique"], level=p["level"], level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["reason"] or "check not built yet"))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
        notes="No hooks are needed in /repo: harnesses are in-package tests added through a build overlay."), f, indent=1)
    f.write("\n")

# DESIGN.md
exec(open(os.path.join(V, "bin", "how.py")).read())
head = open(os.path.join(V, "bin", "DESIGN.head.md")).read()
parts = []
for p in P:
    parts.append("### %s %s\n\n%s\n\n%s\n" % (p["id"], p["title"], p["statement"], HOW.get(p["id"], "Planned: " + p["technique"] + ". " + p["note"])))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
cp = os.path.join(V, "bin", "catches.json")
catches = json.load(open(cp)) if os.path.exists(cp) else {}
sd = os.path.join(V, "seeded")
if os.path.isdir(sd):  # absent where the checks run
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], catches.get(d, "-")))
    with open(os.path.join(V, "DESIGN.md"), "w") as f:
        f.write(head.replace("@@PROPS@@", "\n".join(parts)).replace("@@PLANTS@@", "\n".join(rows)))
