#!/usr/bin/env python3
"""Writes MANIFEST.json from properties_meta.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from properties_meta import META, TECH, NOTE
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": TECH[p], "level": META[p]["level"], "level_note": NOTE[p]} for p in props],
     "not_applicable": [],
     "notes": "No hooks in /repo: the checks build its working tree through a go build overlay generated at check time. Defects found are repaired by fix: commits, listed in known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
