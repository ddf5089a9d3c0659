#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []

def prop(id, title, statement, over, quant, why, files, mech, state, observe, level_note=None, technique=None, level="proof", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=state, observe_at=observe, hook_needed=None)))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CHECKS.append(dict(property=id, quick_cmd=f"./run.sh check {id}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh check {id}",
            technique=technique or TECH, level=level, level_note=level_note))

CHECKS = []
TECH = "contract-based deductive verification: contracts on the real functions, VCs from go/ssa of /repo, discharged by z3 (cvc5 second)"
exec(open(os.path.join(ROOT, "tools", "table.py")).read())

assert len({p["id"] for p in PROPS}) == len(PROPS)
for p in PROPS:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
PROPS.sort(key=lambda p: p["id"]); CHECKS.sort(key=lambda c: c["property"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="./run.sh setup",
    hooks=dict(guard="none", enable="no hooks are needed: the contracts are checked against the unmodified source", source_commits=[]),
    checks=CHECKS, not_applicable=NA,
    notes="All checks run gvc (built from /verif/gvc by run.sh) on /repo's working tree. See DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
