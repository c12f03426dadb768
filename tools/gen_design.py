#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.tpl.md, props.py and seeded/."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = "/verif"
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = []
for p in P:
    i = p["id"]
    u = props.UNITS.get(i, [])
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("Units: %s. Level: %s.\n" % (", ".join("`%s`" % x for x in u) or "none (bounded stand-in only)",
               props.LEVEL.get(i, "proof" if u else "exploration")))
    out.append(props.NOTE.get(i, "") + "\n")
    if props.ASSUME.get(i):
        out.append("Assumed: " + "; ".join(props.ASSUME[i]) + ".\n")
rows = ["| change | property | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s |" % (d, m["property"], props.CAUGHT.get(d, "")))
t = open(V + "/tools/design.tpl.md").read().replace("@@TABLE@@", "\n".join(out)).replace("@@SEEDED@@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(t)
