#!/usr/bin/env python3
"""Adds fix commits to known_findings.json:  fixed.py <property> <commit>..."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + "/known_findings.json"))
for c in sys.argv[2:]:
    s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], text=True).strip()
    h, _, t = s.partition(" fix: ")
    line = "fixed: property=%s %s %s" % (sys.argv[1], h, t)
    if line not in k["fixed"]:
        k["fixed"].append(line)
json.dump(k, open(V + "/known_findings.json", "w"), indent=1)
have = {x.split()[2] for x in k["fixed"]}
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "fd628ca..HEAD"], text=True).splitlines():
    if l.split()[0] not in have:
        print("unlisted:", l)
