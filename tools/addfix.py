#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT WHAT: records a repaired defect"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(p))
prop, commit, what = sys.argv[1:4]
d["findings"].append({"status": "fixed", "property": prop, "commit": commit,
  "what": what, "line": f"fixed: property={prop} {commit} {what}"})
json.dump(d, open(p, "w"), indent=1, ensure_ascii=False)
