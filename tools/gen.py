#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table below.
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=(), tech=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  observe=list(observe), tech=tech, note=note))

exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                 "thorough_cmd": "./check.sh %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["tech"], "level": "model_checking", "level_note": p["note"]} for p in P],
     "not_applicable": [],
     "notes": "No hooks in /repo are needed: the checks compile /repo's sources as they are. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
