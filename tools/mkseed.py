#!/usr/bin/env python3
"""mkseed.py: helper used to write /verif/seeded entries.  Usage from python: seed(id, prop, file, old, new, needs, breaks, demo)"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(sid, prop, edits, needs, breaks, demo):
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
    for f, old, new in edits:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    os.makedirs(V + "/seeded/" + sid, exist_ok=True)
    open(V + "/seeded/%s/patch.diff" % sid, "w").write(d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(V + "/seeded/%s/meta.json" % sid, "w"), indent=1)
    open(V + "/seeded/%s/demo.sh" % sid, "w").write(
        "#!/bin/bash\nset -u\nCDX=$PWD/target/debug/cdx\nW=$(mktemp -d) || exit 1\ntrap 'rm -rf -- \"$W\"' EXIT\ncd \"$W\" || exit 1\n" + demo.strip("\n") + "\n")
