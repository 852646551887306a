#!/usr/bin/env python3
"""Maintenance helper: refresh the 'fixed:' lines of known_findings.txt from /repo's fix commits."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # commit subject -> (property, what failed)
}
exec(open(os.path.join(V, "bin", "fixed_table.py")).read())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
p = os.path.join(V, "known_findings.txt")
keep = [l for l in (open(p).read().splitlines() if os.path.exists(p) else []) if l and not l.startswith("fixed:")]
out = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    prop, what = PROP.get(s, (None, None))
    if not prop:
        print("no entry for", s)
        continue
    for q in prop.split(","):
        out.append("fixed: property=%s %s %s" % (q, h, what))
open(p, "w").write("\n".join(out + keep) + "\n")
