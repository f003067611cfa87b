"""show the end of the last violation compactly: python3 tools/viol.py C09 [n]"""
import json, sys, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
v = json.load(open(os.path.join(R, "build", sys.argv[1] + ".violation.json")))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 4
print({k: x for k, x in v.items() if k not in ("history", "detail")})
h = v.get("history")
print("config", json.dumps(h[0]) if h else None, "ops", json.dumps(h[1][-12:]) if h else None)
d = v["detail"]
if isinstance(d, str): print(d[:3000]); sys.exit()
print("reason", d.get("reason"), "rc", d.get("rc"))
try:
    t = json.loads(d["trace"]) if isinstance(d.get("trace"), str) else d.get("trace")
    at = d.get("event", d.get("step", len(t["ev"])))
    for i, e in list(enumerate(t["ev"]))[max(0, (at or 0) - n):(at or 0) + 1]:
        print(i + 1, json.dumps(e["o"]), "->", json.dumps(e["r"]))
    print({k: x for k, x in t.items() if k not in ("ev", "c")})
except Exception as ex:
    print("trace", str(d.get("trace"))[-700:], ex)
for k, x in d.items():
    if k not in ("trace", "reason", "rc"):
        print(k, ":", "\n".join(l for l in str(x).split("\n") if not l.startswith(("  0x", "=>0x", "Shadow", "  ")))[:1500])
