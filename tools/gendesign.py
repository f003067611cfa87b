"""DESIGN.md from design_src.md, design_props.py, checks, seeded, known_findings"""
import json, os, re, sys
R = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
sys.path.insert(0, os.path.join(R, "tools"))
from design_props import PROPS, DECISIONS
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
man = json.load(open(R + "/MANIFEST.json"))
claimed = {c["property"]: c for c in man["checks"]}
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
out = []
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in PROPS: out.append(PROPS[i].strip() + "\n")
    if i in claimed:
        src = open(R + "/checks/%s.py" % i).read()
        m = re.search(r'^LEVEL_NOTE = "(.*)"', src, re.M)
        specs = sorted(set(re.findall(r'Part\("(\w+)"', src)))
        drv = sorted(set(re.findall(r'drv_\w+\.cpp', src)))
        ev = R + "/evidence/%s.json" % i
        out.append("*Specified in* `%s`; *bound by* %s%s.%s\n" % ("`, `".join("spec/%s.tla" % s for s in specs) or "(custom)",
            ", ".join("`harness/%s`" % d for d in drv) or "custom driver",
            "; `checks/%s.py`" % i, " *Bounds:* " + m.group(1) + "." if m else ""))
    else:
        out.append("*Not claimed*: %s\n" % na.get(i, ""))
kf = json.load(open(R + "/known_findings.json"))
fx = {}
for l in kf["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    fx.setdefault(m.group(1), []).append("%s (`%s`)" % (m.group(3), m.group(2)))
F = "\n".join("* **%s**: %s" % (k, "; ".join(v)) for k, v in sorted(fx.items()))
kn = kf.get("findings", [])
F += "\n\nRecorded, not repaired: " + ("none." if not kn else "\n" + "\n".join("* %s" % json.dumps(x) for x in kn))
S = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/%s/meta.json" % d))
    S.append("| `%s` | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
N = "\n".join("* **%s**: %s" % (k, v) for k, v in sorted(na.items())) or "(none)"
t = open(R + "/tools/design_src.md").read()
for k, v in (("PROPS", "\n".join(out)), ("FIXED", F), ("DECISIONS", DECISIONS.strip()), ("SEEDS", "\n".join(S)), ("NA", N)):
    t = t.replace("<<%s>>" % k, v)
open(R + "/DESIGN.md", "w").write(t)
