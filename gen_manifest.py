#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, rules.json and notes.json."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open("properties.jsonl")]
rules = json.load(open("rules.json"))
notes = json.load(open("notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in rules and i in notes:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": notes[i][0], "level": "exploration", "level_note": notes[i][1]})
    else:
        na.append({"property": i, "reason": "its check is not written yet"})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the whole API under test is public. Replay a reported violation with: python3 check.py replay <file>."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
