#!/usr/bin/env python3
"""rewrite_all.py <pass…>: applies a behaviour-preserving rewriting (tools/rewrite) to every function of the compiled pallets in a
scratch copy mounted over /repo, leaves out the functions in which the result does not compile, and reports which checks stop
being quiet. RW names the built rewriting tool; ONLY=fn,fn restricts it to some functions."""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("REFAC_W", "/tmp/wt")
if os.environ.get("REFAC_NS") != "1":
    if not os.path.exists(W + "/.git"):
        subprocess.check_call(["cp", "-a", "/repo", W])
    subprocess.check_call(f"git -C {W} checkout -q -- . && git -C {W} fetch -q /repo && git -C {W} reset -q --hard $(git -C /repo rev-parse HEAD)", shell=True)
    os.environ["REFAC_NS"], os.environ["SA_LOG"] = "1", "999999"
    os.execvp("unshare", ["unshare", "-m", "bash", "-c", f"mount --bind {W} /repo && exec python3 {' '.join(sys.argv)}"])
RW = os.environ.get("RW", "/tmp/rewrite_bin")
D = "pallets/democracy/src/"
FILES = [D + x for x in ("lib.rs", "types.rs", "vote.rs", "vote_threshold.rs", "conviction.rs")] + ["pallets/elections-phragmen/src/lib.rs", "pallets/on-slash-vesting/src/lib.rs"]
if os.environ.get("FILES"):
    FILES = [f for f in FILES if any(x in f for x in os.environ["FILES"].split(","))]
known = [l.split(" key=", 1)[1].split(" :: ")[0] for l in open(HERE + "/known-findings.txt") if l.startswith("finding:")]


def fn_at(f, n):
    ls = open("/repo/" + f).read().split("\n")
    for i in range(min(n, len(ls)) - 1, -1, -1):
        m = re.search(r"\bfn (\w+)", ls[i])
        if m:
            return m.group(1)


for ps in sys.argv[1:]:
    skip = {f: {"integrity_test"} for f in FILES}
    for rnd in range(25):
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        n = 0
        for f in FILES:
            for one in ps.split("+"):
                p = subprocess.run([RW, one, "/repo/" + f, ",".join(sorted(skip[f])) or "-"], capture_output=True, text=True)
                if p.returncode:
                    print("==", ps, f, p.stderr[-500:])
                n += int(p.stdout.strip() or 0)
        p = subprocess.run(["python3", "-m", "sa.build", "now"], cwd=HERE, capture_output=True, text=True)
        if not p.returncode:
            break
        new = False
        cur = None
        for l in p.stdout.splitlines() + p.stderr.splitlines():
            m = re.search(r"(pallets/[\w\-/]+\.rs):(\d+):\d+", l)
            if m and m.group(1) in skip:
                k = fn_at(m.group(1), int(m.group(2)))
                if k and k not in skip[m.group(1)]:
                    skip[m.group(1)].add(k)
                    new = True
        if not new:
            break
    s = {f.split("/")[-3] + "/" + f.split("/")[-1]: sorted(v - {"integrity_test"}) for f, v in skip.items() if len(v) > 1}
    if p.returncode:
        print("==", ps, "DOES NOT BUILD", [l for l in p.stdout.splitlines() if l.startswith("error")][:6], flush=True)
        continue
    o = subprocess.run(["python3", "-m", "sa.try", HERE + "/.cache/facts", "all"], cwd=HERE, capture_output=True, text=True)
    ls = o.stdout.splitlines()
    vs = [(ls[i][6:], ls[i + 1]) for i in range(len(ls)) if ls[i].startswith("   ! ") and not any(ls[i][5:].strip().startswith(k) for k in known)]
    print("==", ps, n, "places,", "quiet" if not vs and not o.stderr else f"{len(vs)} ALARMS" + o.stderr[-300:], "left out:", s, flush=True)
    by = {}
    for k, m in vs:
        by.setdefault(":".join(k.split(":")[:3]), []).append((k, m))
    for g, l in by.items():
        print("  ", g, len(l))
        for k, m in l[: int(os.environ.get("N", "2"))]:
            print("      ", k[:150], "\n           ", m.strip()[: int(os.environ.get("W", "300"))])
subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
