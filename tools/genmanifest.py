#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, tools/rules.json and the tests present."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(V + "/harness/checks/*_test.go"):
    have |= set(re.findall(r"func Test(C\d\d)\(", open(f).read()))
rules = json.load(open(V + "/tools/rules.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p not in have:
        na.append({"property": p, "reason": "check not built yet"})
        continue
    r = rules.get(p, {})
    checks.append({"property": p, "quick_cmd": "./run.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p, "technique": r.get("technique", "property-based testing"), "level": "exploration", "level_note": r.get("note", "generated cases only; see DESIGN.md")})
json.dump({"version": 1, "setup_cmd": "./run.sh --setup", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
