#!/usr/bin/env python3
"""rewrites the generated tables of DESIGN.md (properties and their obligations, planted bugs) from specs/, properties.jsonl and seeded/"""
import collections, glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import rules
by = collections.defaultdict(lambda: [collections.OrderedDict(), collections.Counter()])
for p in sorted(glob.glob(HERE + "/specs/*.spec")):
    for s in rules.parse_file(p)[0]:
        for o in s.obl:
            for t in o.tags:
                by[t][0].setdefault(s.name.split(" in ")[0], 0)
                by[t][0][s.name.split(" in ")[0]] += 1
                by[t][1][o.kind] += 1
by["C66"][0]["every call and block hook of five pallets"] = 38
by["C66"][1]["no lost update"] = 38
by["C67"][0]["every call and block hook of five pallets"] = 38
by["C67"][1]["no panic"] = 38
by["C68"][0]["every weight function of five pallets, in both tables"] = 156
by["C68"][1]["measured weight"] = 156
seeds = collections.defaultdict(list)
rows = []
for d in sorted(glob.glob(HERE + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    seeds[m["property"]].append(os.path.basename(d))
    rows.append((os.path.basename(d), m["property"], m["needs"], m["what_it_breaks"]))
out = ["| id | decided on (number of obligations) | kinds of obligation | planted |", "|---|---|---|---|"]
for l in open(HERE + "/properties.jsonl"):
    q = json.loads(l)
    if q["id"] not in by:
        continue
    fs, ks = by[q["id"]]
    out.append(f"| {q['id']} {q['title']} | " + ", ".join(f"`{f}` {n}" for f, n in fs.items()) + " | " + ", ".join(f"{k} {n}" for k, n in ks.most_common()) + " | " + ", ".join(seeds[q["id"]]) + " |")
man = json.load(open(HERE + "/MANIFEST.json"))
na = ["| id | why static analysis does not decide it here |", "|---|---|"] + [f"| {x['property']} | {x['reason']} |" for x in man["not_applicable"]]
pl = ["| planted bug | check that catches it | needs | breaks |", "|---|---|---|---|"] + ["| " + " | ".join(r) + " |" for r in rows]
t = open(HERE + "/DESIGN.md").read()
for n, x in (("properties", out), ("declined", na), ("planted", pl)):
    t = re.sub(rf"(<!-- {n} -->\n).*?(<!-- /{n} -->)", lambda m: m.group(1) + "\n".join(x) + "\n" + m.group(2), t, flags=re.S)
open(HERE + "/DESIGN.md", "w").write(t)
