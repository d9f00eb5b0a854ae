#!/usr/bin/env python3
"""Adds a 'fixed' entry: tools/fixed.py C20 HASH ..."""
import json, subprocess, sys
p = "/verif/known_findings.jsonl"
for h in sys.argv[2:]:
    s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s", h], capture_output=True, text=True).stdout.strip()
    h, t = s.split(" ", 1)
    assert t.startswith("fix: ")
    with open(p, "a") as f:
        f.write(json.dumps({"property": sys.argv[1], "status": "fixed", "commit": h, "what": "fixed: property=%s %s %s" % (sys.argv[1], h, t[5:])}) + "\n")
