#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import jobs
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in jobs.PROPS:
        s = jobs.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s quick" % i, thorough_cmd="python3 bin/check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=s.get("technique", "explicit-state model checking of the implementation against a reference model (bounded exhaustive)"),
            level="model_checking", level_note=s.get("note", s["bounds"]["quick"])))
    else:
        na.append(dict(property=i, reason=jobs.NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="No hooks are compiled into /repo; harnesses use the public C++ API. Genuine defects found were repaired by 'fix:' commits, see known_findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
