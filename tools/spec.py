#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
TECH = "symbolic execution of the LLVM IR of the real headers, assertions decided by z3 for all inputs within the bounds"

def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=mech)), note))
    if na:
        NA.append(dict(property=id, reason=na))

exec(open(ROOT + "/tools/props.py").read())

with open(ROOT + "/properties.jsonl", "w") as f:
    for p, _ in P:
        f.write(json.dumps(p) + "\n")
na = {x["property"] for x in NA}
man = dict(
    version=1,
    setup_cmd="python3 check.py --setup",
    checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                 technique=TECH, level="model_checking",
                 level_note="Exhaustive over the symbolic inputs within the stated bounds; nothing is claimed outside them. Trusts clang-18's IR, the engine's encoding (every explored path sample is replayed on a native g++ build) and z3." + ((" " + note) if note else ""))
            for p, note in P if p["id"] not in na],
    not_applicable=NA,
    notes="No hooks in /repo: harnesses include the headers. 'fix:' commits are listed in known_findings.json.")
json.dump(man, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties", len(NA), "not applicable")
