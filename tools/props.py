#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level="proof", note="", na=None, tech="contract verification (CBMC): assumed preconditions, asserted postconditions on the real functions, SAT/SMT discharge"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note, na=na, tech=tech))


exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py",
     "hooks": HOOKS,
     "checks": [{"property": p["id"], "quick_cmd": "python3 /verif/run.py check %s --tier quick" % p["id"],
                 "thorough_cmd": "python3 /verif/run.py check %s --tier thorough" % p["id"],
                 "evidence_file": "/verif/evidence/%s.json" % p["id"], "technique": p["tech"], "level": p["level"], "level_note": p["note"]}
                for p in P if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": NOTES}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
