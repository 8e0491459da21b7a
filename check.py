#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property on /repo's current working tree."""
import fcntl
import glob
import json
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import build, facts, rules, custom  # noqa: E402


def findings():
    """known-findings.txt: `finding: property=<id> key=<key> :: <what fails>` suppresses exactly that key"""
    out = {}
    for l in open(HERE + "/known-findings.txt"):
        if l.startswith("finding: "):
            head, what = l[len("finding: "):].split(" :: ", 1)
            p, k = head.split(" ", 1)
            out[(p.split("=", 1)[1], k.split("=", 1)[1].strip())] = what.strip()
    return out


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    specs = [p for p in sorted(glob.glob(HERE + "/specs/*.spec")) if any(prop in o.tags for s in rules.parse_file(p)[0] for o in s.obl)]
    crates = {s.crate for p in specs for s in rules.parse_file(p)[0]} | custom.CRATES.get(prop, set())
    main, aux, tryrt = (bool(crates & set(x)) for x in (build.PKGS.values(), build.AUXCR, build.TRYCR))
    try:
        os.makedirs(build.CACHE, exist_ok=True)
        with open(build.CACHE + "/lock", "a") as fh:
            fcntl.flock(fh, fcntl.LOCK_EX)
            if not os.environ.get("SA_REUSE"):
                build.extract_now(main, aux, build.OUT, tryrt)
            names = (list(build.PKGS.values()) if main else []) + (build.AUXCR if aux else []) + (build.TRYCR if tryrt else [])
            fx = facts.load_dir(build.OUT, names)
            fxr = None
            if tier == "thorough":  # again as shipped: without debug assertions and overflow checks
                build.extract_now(main, aux, build.OUTR, tryrt)
                fxr = facts.load_dir(build.OUTR, names)
    except build.BuildError as x:
        print(f"error: the tree could not be analysed\n{x}")
        return 2
    t1 = time.time()
    c = rules.Checker(fx, specs)
    try:
        viol = c.run(prop)
        viol += custom.run(prop, c)
        if tier == "thorough":
            n, bad, odd = c.selftest(prop)
            c.stats.update(mutants=n, mutants_rejected=bad)
            for o in odd:
                print(f"note: this wrong rule would be accepted too: {o[:200]}")
            r = rules.Checker(fxr, specs)
            vr = r.run(prop) + custom.run(prop, r)
            for v in vr:
                v.msg = "without debug assertions: " + v.msg
            viol = viol + vr
            c.stats["obligations"] += r.stats["obligations"]
    except Exception:
        traceback.print_exc()
        print(f"error: the analysis of {prop} did not complete")
        return 2
    st = c.stats
    if st["obligations"] == 0:
        print(f"error: no obligations for {prop}")
        return 2
    known = findings()
    new = []
    seen = set()
    for v in viol:
        if v.key in seen:
            continue
        seen.add(v.key)
        k = known.get((prop, v.key))
        if k is not None:
            print(f"KNOWN-FINDING: property={prop} {k}")
        else:
            new.append(v)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": "Every path of each listed function (callees, trait impls and closures inlined from the type-checked MIR) is summarised as guarded "
                           "value-flow facts: the exact condition of success, the value every storage cell ends with, and every external effect with its guard. "
                           "Each obligation is decided on those summaries for all inputs and all prior states.",
            "rule": "an obligation is discharged when the summary's guard or value equals, after normalisation, what the rule states on every path",
            "obligations": st["obligations"], "discharged": st["obligations"] - min(len(seen), st["obligations"]),
            "functions": [{"fn": k, "at": v} for k, v in sorted(st["functions"].items())],
            "functions_inlined": len(st["inlined"]), "call_sites": st["call_sites"], "basic_blocks": st["blocks"],
            "vacuous_guards": st.get("vacuous", 0), "rule_mutants": st.get("mutants", 0), "rule_mutants_rejected": st.get("mutants_rejected", 0),
            "samples": st["lines"][:12], "facts_s": round(t1 - t0, 2), "decide_s": round(time.time() - t1, 2),
            "known_findings": sorted(k for k in seen if (prop, k) in known), "violations": [v.key for v in new],
        },
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{prop}.json", "w") as fh:
        json.dump(ev, fh, indent=1)
    if not new:
        print(f"{prop}: {st['obligations']} obligations on {len(st['functions'])} functions hold ({ev['wall_s']} s)")
        return 0
    rp = f"{HERE}/evidence/{prop}.replay.json"
    with open(rp, "w") as fh:
        json.dump({"property": prop, "rerun": f"python3 {HERE}/check.py {prop}", "violations": [{"key": v.key, "at": v.where, "what": v.msg} for v in new]}, fh, indent=1)
    for v in new[:20]:
        print(f"  {v.where or ''} {v.key}\n     {v.msg[:700]}")
    print(f"VIOLATION property={prop} replay={rp}")
    return 1


sys.exit(main())
