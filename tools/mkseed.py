#!/usr/bin/env python3
"""mkseed.py <batch.py>: writes seeded/<id>/ from a table of edits (SEEDS: id, prop, pallet, [(file, old, new)], needs, breaks, demo)"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(sys.argv[1]).read(), g)
only = sys.argv[2:]
W = "/tmp/wt2"
subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
if not os.path.exists(W):
    subprocess.check_call(["git", "clone", "-q", "/repo", W])
subprocess.check_call(f"git -C {W} fetch -q origin && git -C {W} reset -q --hard origin/HEAD", shell=True)
for s in g["SEEDS"]:
    if only and s["id"] not in only:
        continue
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    for f, a, b in s["edits"]:
        p = f"{W}/{f}"
        t = open(p).read()
        assert t.count(a) == 1, (s["id"], f, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    d = f"{HERE}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", W, "diff"], text=True))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if s.get("demo") is not None:
        shutil.copy(HERE + "/tools/demo.sh", d + "/demo.sh")
        open(d + "/demo.conf", "w").write(f"PALLET={s['pallet']}\n")
        open(d + "/demo.rs", "w").write(s["demo"].strip() + "\n")
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
