#!/usr/bin/env python3
"""known_findings.json: the fixed defects, with the commit of each in /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = json.load(open(os.path.join(V, "tools", "fixed.json")))
out = {"findings": [], "fixed": ["fixed: property=%s %s %s" % tuple(x) for x in F]}
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
