#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one compact entry per property).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=["include/daw/"+f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where="include/daw/"+b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_src.py")).read())
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
