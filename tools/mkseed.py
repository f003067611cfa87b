#!/usr/bin/env python3
"""Create /verif/seeded/<id>/ from a definition: python3 tools/mkseed.py DEFS.py [ID...]
DEFS.py calls seed(id, property, file, [(old, new)...], needs, breaks, demo_cpp)."""
import json, os, subprocess, sys, tempfile, difflib
OUT = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero when the property is broken; run with cwd = the repository
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
clang++ -std=c++23 -O1 -g -w %s -I include "$here/demo.cpp" -o "$t/demo" -lpthread || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$t/demo"
'''
only = set(sys.argv[2:])
def seed(id, prop, file, subs, needs, breaks, demo, flags=""):
    if only and id not in only:
        return
    if isinstance(file, str):
        files = [(file, subs)]
    else:
        files = file
    diff = ""
    for f, ss in files:
        path = "/repo/" + f
        a = open(path).read()
        b = a
        for old, new in ss:
            want = 1
            if isinstance(new, tuple): new, want = new
            if b.count(old) != want:
                print("!!", id, "count", b.count(old), repr(old[:80])); return
            b = b.replace(old, new)
        diff += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO % flags)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("ok", id)
exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
