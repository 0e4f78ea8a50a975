#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the drivers that exist."""
import json, os, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "drivers", i + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification checked with TLC; trace validation of recorded executions against it",
                       "level": "model_checking",
                       "level_note": NOTES.get(i, "The specification is model-checked on small constants; every recorded execution of the real code is decided by TLC against it. Assurance covers the executions generated (bounds in the evidence file); trusts TLC, the recorder and the case generators.")})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Specifications in spec/ (TLA+), drivers in drivers/, shared machinery in vf/. No hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
