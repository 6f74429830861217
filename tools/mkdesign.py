#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the text below, with the bounds of harness/checks.json,
the statements of properties.jsonl and the planted bugs of seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {p["id"]: p for p in map(json.loads, open(V + "/properties.jsonl"))}
checks = json.load(open(V + "/harness/checks.json"))
na = {x["property"]: x["reason"] for x in json.load(open(V + "/tools/not_applicable.json"))}
notes = json.load(open(V + "/tools/design_notes.json"))
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
out = open(V + "/tools/design_head.md").read().rstrip() + "\n\n## Properties\n"
for id in sorted(props):
    p = props[id]
    out += "\n### %s %s\n\n%s\n\n" % (id, p["title"], p["statement"])
    if id in na:
        out += "Not applicable: %s\n" % na[id]
        continue
    if id not in checks:
        out += "Not checked yet.\n"
        continue
    n = notes.get(id, {})
    c = checks[id]
    out += "- Specified: %s.\n" % p["quantifier"]["text"]
    out += "- Oracle: %s\n" % n["oracle"]
    for h in c["harnesses"]:
        out += "- Bound of `%s`: %s.  Quick: %s.  Thorough: %s.\n" % (
            h["fn"], h["bound"], json.dumps(h["quick"]).replace('"', "") or "-", json.dumps(h["thorough"]).replace('"', ""))
    if c.get("assumptions"):
        out += "- Assumed: %s.\n" % "; ".join(c["assumptions"])
    out += "- Outside: %s.\n" % c["outside"].rstrip(".")
    out += "- Cost: %s\n" % n["cost"]
    out += "- Why beyond tests: %s\n" % p["why_tests_cant"]
    if n.get("alarms"):
        out += "- False alarms met while building it, and what was corrected: %s\n" % n["alarms"]
    for s, m in seeds.get(id, []):
        out += "- Planted bug `%s` (%s): caught.\n" % (s, m["what_it_breaks"].rstrip("."))
    if n.get("misses"):
        out += "- Strengthened after a miss: %s\n" % n["misses"]
open(V + "/DESIGN.md", "w").write(out)
