#!/usr/bin/env python3
"""refac.py <batch.py> [ids]: applies behaviour-preserving edits (REFACS: id, edits) to a scratch copy mounted over /repo and
reports which checks stop being quiet"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("REFAC_W", "/tmp/wt")
if os.environ.get("REFAC_NS") != "1":
    if not os.path.exists(W + "/.git"):
        subprocess.check_call(["cp", "-a", "/repo", W])
    subprocess.check_call(f"git -C {W} checkout -q -- . && git -C {W} fetch -q /repo && git -C {W} reset -q --hard $(git -C /repo rev-parse HEAD)", shell=True)
    os.environ["REFAC_NS"] = "1"
    os.execvp("unshare", ["unshare", "-m", "bash", "-c", f"mount --bind {W} /repo && exec python3 {' '.join(sys.argv)}"])
g = {}
exec(open(sys.argv[1]).read(), g)
only = sys.argv[2:]
known = [l.split(" key=", 1)[1].split(" :: ")[0] for l in open(HERE + "/known-findings.txt") if l.startswith("finding:")]
bad = 0
for r in g["REFACS"]:
    if only and r["id"] not in only:
        continue
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    for f, a, b in r["edits"]:
        t = open("/repo/" + f).read()
        assert t.count(a) in (1, r.get("n", 1)), (r["id"], f, t.count(a), a)
        open("/repo/" + f, "w").write(t.replace(a, b))
    p = subprocess.run(["python3", "-m", "sa.build", "now"], cwd=HERE, capture_output=True, text=True)
    if p.returncode:
        print("==", r["id"], "DOES NOT BUILD")
        print("\n".join(l for l in p.stdout.splitlines() if l.startswith("error"))[:1500], p.stdout[-800:])
        continue
    o = subprocess.run(["python3", "-m", "sa.try", HERE + "/.cache/facts", "all"], cwd=HERE, capture_output=True, text=True)
    ls = o.stdout.splitlines()
    vs = [(ls[i][6:], ls[i + 1]) for i in range(len(ls)) if ls[i].startswith("   ! ") and not any(ls[i][5:].strip().startswith(k) for k in known)]
    print("==", r["id"], "quiet" if not vs and not o.stderr else f"{len(vs)} ALARMS" + o.stderr[-300:], flush=True)
    for k, m in vs[: int(os.environ.get("N", "4"))]:
        print("   ", k[:150], "\n       ", m.strip()[: int(os.environ.get("W", "400"))])
    bad += bool(vs)
subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
print("alarms in", bad)
