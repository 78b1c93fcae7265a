#!/usr/bin/env python3
"""mkseed.py ID PROP FILE NEEDS BREAKS  < old/new separated by a line '=====' ; makes patch.diff and meta.json"""
import sys, os, subprocess, json
sid, prop, f, needs, breaks = sys.argv[1:6]
old, new = sys.stdin.read().split("\n=====\n")
new = new.rstrip("\n")
R = os.environ.get("MC_REPO", "/repo"); p = R + "/" + f; s = open(p).read()
assert s.count(old) == 1, s.count(old)
d = "/verif/seeded/" + sid; os.makedirs(d, exist_ok=True)
open(p, "w").write(s.replace(old, new))
try:
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
