#!/usr/bin/env python3
"""Rewrite the "fixed" entries of known_findings.json from /repo's fix: commits.
MAP: (path or subject fragment -> property); first match wins; every fix commit must match."""
import json, subprocess, sys
MAP = json.load(open("/verif/tools/fixmap.json"))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "16ff3ad..HEAD"], text=True).splitlines()
p = "/verif/known_findings.json"
try: k = json.load(open(p))
except FileNotFoundError: k = {"findings": []}
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    for frag, prop in MAP:
        if frag in s:
            out.append("fixed: property=%s %s %s" % (prop, h, s[5:])); break
    else:
        print("unmapped:", l); sys.exit(1)
k["fixed"] = out
json.dump(k, open(p, "w"), indent=1); open(p, "a").write("\n")
print(len(out), "fixed entries")
