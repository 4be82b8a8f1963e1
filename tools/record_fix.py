#!/usr/bin/env python3
"""record_fix.py PROP HASH...: appends fixed: lines to known_findings.jsonl (used while developing)."""
import subprocess, sys
p = sys.argv[1]
with open("/verif/known_findings.jsonl", "a") as f:
    for h in sys.argv[2:]:
        m = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", h], text=True).strip()
        hh, s = m.split(" ", 1)
        f.write("fixed: property=%s %s %s\n" % (p, hh, s.removeprefix("fix: ")))
