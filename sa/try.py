"""python3 -m sa.try <facts dir> <prop|all> [spec…]: run the obligations of one property (development helper)"""
import sys, time, glob, os
from . import custom, facts, rules
fx = facts.load_dir(sys.argv[1], (["pallet_democracy", "pallet_elections_phragmen", "on_slash_vesting"] + list(__import__("sa.build").build.AUXCR) + list(__import__("sa.build").build.TRYCR)))
c = rules.Checker(fx, sys.argv[3:] or sorted(glob.glob(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))) + "/specs/*.spec")))
only = os.environ.get("FN")
if only:
    c.secs = [s for s in c.secs if s.name.split()[0] in only.split(",")]
for t in (sorted(set(c.tags()) | set(custom.RULES)) if sys.argv[2] == "all" else [sys.argv[2]]):
    t0 = time.time()
    v = c.run(t)
    v += custom.run(t, c)
    print(f"{t}: {c.stats['obligations']} obligations, {len(c.stats['functions'])} functions, {len(v)} violations, {time.time()-t0:.2f}s")
    for x in v:
        print("   !", x.key, "\n       ", x.msg[:int(os.environ.get("W", "900"))], x.where)
