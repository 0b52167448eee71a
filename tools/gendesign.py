#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design.md.in").read()
kf = [l.strip() for l in open(V + "/known-findings.txt") if l.strip()]
ids = sorted(os.listdir(V + "/seeded"))
rows = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for i in ids:
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], caught.get(i, m["property"])))
rep = {
    "@NPROPS@": str(sum(1 for _ in open(V + "/properties.jsonl"))),
    "@NSEEDED@": str(len(ids)),
    "@SEEDED@": "\n".join(rows),
    "@FIXED@": "\n".join("* " + l[7:] for l in kf if l.startswith("fixed:")),
    "@KNOWN@": "\n".join("* " + l[7:] for l in kf if l.startswith("known:")),
}
for k, v in rep.items():
    t = t.replace(k, v)
open(V + "/DESIGN.md", "w").write(t)
