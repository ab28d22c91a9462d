#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. One entry per property: P(id, title, statement,
over, quantifier text, why tests cannot, files, mechanism [(name, where)], note)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []
TECH = "contract-based deductive verification (verification conditions from the Go SSA of /repo, SMT) with a bounded executable conformance run for the failing input"
def P(id, title, statement, over, qtext, why, files, mech, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a), note))
def N(id, title, statement, over, qtext, why, files, mech, reason):
    P(id, title, statement, over, qtext, why, files, mech, None)
    NA.append({"property": id, "reason": reason})
exec(open(os.path.join(ROOT, "tools", "list.py")).read())
ids = [p["id"] for p, _ in PROPS]
assert len(set(ids)) == len(ids)
for p, _ in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["anchors"]["files"]:
        assert os.path.exists(os.path.join("/repo", f)), (p["id"], f)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _ in PROPS:
        f.write(json.dumps(p) + "\n")
na = {n["property"] for n in NA}
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "bash /verif/check.sh %s quick" % p["id"],
                 "thorough_cmd": "bash /verif/check.sh %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "proof", "level_note": n}
                for p, n in PROPS if p["id"] not in na],
     "not_applicable": NA,
     "notes": "No hooks in /repo: contracts live in /verif/contracts and are checked against the SSA of /repo's current source on every run. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
