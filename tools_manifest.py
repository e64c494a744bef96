#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import check
import checks

NOTES = json.load(open(os.path.join(ROOT, "level_notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out, na = [], []
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        n = NOTES[i]
        out.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                        thorough_cmd="python3 check.py %s --tier thorough" % i,
                        evidence_file="evidence/%s.json" % i, technique=n[0], level="model_checking", level_note=n[1]))
    else:
        na.append(dict(property=i, reason=NOTES.get("na", {}).get(i, "no check built for it yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=out, not_applicable=na,
         notes="No hooks in /repo: every check drives the crate through its public API from /verif/harness.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(out), "checks,", len(na), "not applicable")
