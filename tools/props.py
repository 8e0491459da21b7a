#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (python3 tools/props.py)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("static analysis: interprocedural gated value-flow dataflow (abstract interpretation over resolved, type-checked MIR) "
        "with per-function summaries compared against stated pre/postconditions and frame rules")
NOTE = ("Decided from the source without running it: every path of each listed function is summarised with callees, trait impls and closures inlined. "
        "Configuration traits (currency, scheduler, origins) are opaque; loops are summarised per element; storage cells under differently written keys are taken as distinct.")
P, N = [], []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=""):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)), note))


def declined(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    N.append((id, reason))


exec(open(os.path.join(HERE, "tools", "table.py")).read())

for p, _ in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
ids = [p["id"] for p, _ in P]
assert len(set(ids)) == len(ids)
with open(HERE + "/properties.jsonl", "w") as fh:
    for p, _ in sorted(P, key=lambda x: x[0]["id"]):
        fh.write(json.dumps(p, ensure_ascii=False) + "\n")
no = dict(N)
man = {"version": 1, "setup_cmd": "./setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --thorough",
                   "technique": TECH, "level": "other", "level_note": (NOTE + " " + n).strip()} for p, n in sorted(P, key=lambda x: x[0]["id"]) if p["id"] not in no],
       "not_applicable": [{"property": i, "reason": r} for i, r in sorted(N)]}
with open(HERE + "/MANIFEST.json", "w") as fh:
    json.dump(man, fh, indent=1, ensure_ascii=False)
    fh.write("\n")
