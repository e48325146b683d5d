#!/usr/bin/env python3
"""Writes the generated part of DESIGN.md (table of properties with bounds, table of planted bugs)."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(R, "bin"))
import jobs
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
out = []
out.append("## Properties: what is enumerated, within which bounds\n")
for p in props:
    j = jobs.PROPS[p["id"]]
    h = sorted({x["harness"] for x in j["jobs"]})
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("- Harness: `harness/%s`, real sources: %s" % (", ".join(h), ", ".join(sorted({s for x in j["jobs"] for s in x["sources"]} | set(p["anchors"]["files"])))))
    out.append("- Method: %s." % j["technique"])
    out.append("- Quick: %s." % j["bounds"]["quick"].rstrip("."))
    out.append("- Thorough: %s." % j["bounds"]["thorough"].rstrip("."))
    if j["assumptions"]: out.append("- Assumes: %s." % "; ".join(j["assumptions"]))
    out.append("- Beyond the tests: %s" % p["why_tests_cant"])
    out.append("- %s\n" % j["note"])
out.append("## Planted bugs (/verif/seeded) and the checks that catch them\n")
out.append("Each one builds, passes the 17 stable tests, and is caught by the quick check of its property.\n")
out.append("| bug | property | breaks | needs |\n|---|---|---|---|")
sd = os.path.join(R, "seeded")
rows = []
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append((m["property"], d, "| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].strip(), m["needs"].strip())))
out += [r[2] for r in sorted(rows)]
marker = "<!-- generated by tools/mkdesign.py -->\n"
f = os.path.join(R, "DESIGN.md"); s = open(f).read()
head = s.split(marker)[0]
open(f, "w").write(head + marker + "\n" + "\n".join(out) + "\n")
