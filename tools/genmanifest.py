#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and checks/*.py (LEVEL_NOTE, LEVEL, TECHNIQUE) plus NA below.
import json, os, subprocess
R = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
NA = {}
na_p = os.path.join(R, "tools", "not_applicable.json")
if os.path.exists(na_p): NA = json.load(open(na_p))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(R, "checks", p["id"] + ".py")
    if not os.path.exists(f) or p["id"] in NA:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check has been built for it yet")))
        continue
    meta = {}
    for l in open(f):
        for k in ("LEVEL_NOTE", "TECHNIQUE", "LEVEL"):
            if l.startswith(k + " ="): meta[k] = eval(l.split("=", 1)[1])
    checks.append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick python3 lib/mbt.py %s quick" % p["id"],
        thorough_cmd="VERIF_TIER=thorough python3 lib/mbt.py %s thorough" % p["id"],
        technique=meta.get("TECHNIQUE", "TLA+ specification checked with TLC; TLC-generated behaviours replayed in the real code; recorded traces validated by TLC"),
        level=meta.get("LEVEL", "model_checking"),
        level_note=meta.get("LEVEL_NOTE", "Exhaustive over the specification's small constants plus seeded random long histories; the code is bound by replaying every generated history and validating the recorded trace with TLC. Trusts TLC, the driver's transcription of operations and results, and the sanitizers.")))
json.dump(dict(version=1, setup_cmd="python3 lib/setup.py",
    hooks=dict(guard="VERIF_HOOKS", enable="no hooks are needed: checks compile /repo/include directly against drivers in /verif/harness", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="One TLA+ module per component in spec/; drivers in harness/; engine in lib/mbt.py; parts per property in checks/."),
    open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
