"""What a weight function charges: linear forms in its arguments, compared with the other table of the same pallet and with the
measurement recorded beside the function."""
import os
import re

from . import build, rules
from .rules import place, site
from .terms import *


def lin(t):
    """a number as {argument or None: coefficient}"""
    if t.op == "int":
        return {None: t.a[0]}
    if t.op == "arg":
        return {t.a[0]: 1}
    if t.op in ("cast", "trunc") and isinstance(t.a[-1], T):
        return lin(t.a[-1])
    if t.op in ("add", "satadd"):
        return plus(*[lin(x) for x in t.a])
    if t.op in ("mul", "satmul") and len(t.a) == 2:
        return times(lin(t.a[0]), lin(t.a[1]))
    return None


def plus(*xs):
    r = {}
    for x in xs:
        if x is None:
            return None
        for k, v in x.items():
            r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v or k is None}


def times(a, b):
    if a is None or b is None:
        return None
    if set(b) <= {None}:
        a, b = b, a
    if not set(a) <= {None}:
        return None
    return {k: a.get(None, 0) * v for k, v in b.items()}


def form(t):
    """(time, proof size, reads, writes) of a weight, or None where it is not a sum of products"""
    if t.op == "wzero":
        return {}, {}, {}, {}
    if t.op in ("wsatadd", "wadd"):
        fs = [form(x) for x in t.a]
        return None if None in fs else tuple(plus(*[f[i] for f in fs]) for i in range(4))
    if t.op in ("wsatmul", "wmul"):
        f, n = form(t.a[0]), lin(t.a[1])
        r = tuple(times(x, n) for x in f) if f is not None and n is not None else None
        return None if r is None or None in r else r
    if t.op == "call":
        n = t.a[0].split("::")[-1]
        xs = [lin(x) for x in t.a[1:]]
        if t.a[0].endswith("Weight::from_parts"):
            r = xs[0], xs[1], {}, {}
        elif n == "reads" and len(xs) == 2:
            r = {}, {}, xs[1], {}
        elif n == "writes" and len(xs) == 2:
            r = {}, {}, {}, xs[1]
        elif n == "reads_writes" and len(xs) == 3:
            r = {}, {}, xs[1], xs[2]
        else:
            return None
        return None if None in r else r
    return None


def record(path, line):
    """the measurement written at the function: names of its arguments, what it recorded"""
    try:
        with open(os.path.join(build.REPO, path)) as fh:
            ls = fh.read().split("\n")
    except OSError:
        return None
    i = line - 1
    while i < len(ls) and "fn " not in ls[i]:
        i += 1
    doc, j = [], i - 1
    while j >= 0 and re.match(r"\s*(///|#\[|//)", ls[j]):
        doc.append(ls[j])
        j -= 1
    sig = ls[i] if i < len(ls) else ""
    body, j = [], i + 1
    while j < len(ls) and not re.match(r"\t}|    }", ls[j]):
        body.append(ls[j])
        j += 1
    args = re.findall(r"(\w+): u\d+", sig)
    doc, body = "\n".join(doc), "\n".join(body)
    size = {m[0]: int(m[2].replace("_", "")) for m in re.findall(r"component `(\w+)` is `\[([\d_]+), ([\d_]+)\]`", doc)}
    est = re.search(r"Estimated: `([^`]*)`", body)
    tm = re.search(r"Minimum execution time: ([\d_]+)", body)
    rw = re.findall(r"\(r:(\d+) w:(\d+)\)", doc)
    if not est or not tm:
        return None
    proof = {None: 0}
    for p in est.group(1).split(" + "):
        m = re.match(r"(\d+)$|(\w+) \* \((\d+)", p)
        if not m:
            return None
        if m.group(1):
            proof[None] = int(m.group(1))
        else:
            k = next((n for n, a in enumerate(args) if a.lstrip("_") == m.group(2)), None)
            if k is None:
                return None
            proof[k] = int(m.group(3))
    return {"size": {n: size[a.lstrip("_")] for n, a in enumerate(args) if a.lstrip("_") in size}, "proof": {k: v for k, v in proof.items() if v or k is None},
            "time": int(tm.group(1).replace("_", "")), "reads": sum(int(r) for r, _ in rw), "writes": sum(int(w) for _, w in rw), "args": args}


def at(f, size):
    return sum(v * (1 if k is None else size.get(k, 0)) for k, v in f.items())


def text(f, args):
    return " + ".join(str(v) if k is None else f"{v}*{args[k] if k < len(args) else k}" for k, v in sorted(f.items(), key=lambda x: (x[0] is not None, x[0]))) or "0"


NAMES = ("time", "proof size", "reads", "writes")


def run(prop, c, crates):
    out = []
    for crate in crates:
        if crate not in c.fx.crates:
            continue
        tab = {}
        for p, f in sorted(c.fx.fns.items()):
            m = re.match(crate + r"::<(.*) as (?:[\w:]+::)?WeightInfo>::(\w+)(?:#\w+)?$", p)
            if not m or f.get("closure"):
                continue
            tab.setdefault(m.group(2), []).append((m.group(1), f))
        if not tab:
            out.append(rules.Viol(prop, f"{crate}:weights:missing", f"no weight function of {crate} was found", None))
        for name, fs in sorted(tab.items()):
            forms = []
            for who, f in fs:
                s = c.summary(f)
                c.stats["functions"][f["path"]] = site(place(f))
                c.stats["obligations"] += 1
                x = form(s.ret)
                if x is None:
                    out.append(rules.Viol(prop, f"{crate}::{name}:weight:form", f"the weight `{name}` of `{who}` is not a sum of constants and products with its arguments: {show(s.ret)[:200]}", site(place(f))))
                    continue
                x = tuple({k: v for k, v in y.items() if v} for y in x)
                forms.append((who, f, x))
                r = record(*f["span"][:2])
                if r is None:
                    continue
                c.stats["call_sites"] += 1
                proof = {k: v for k, v in r["proof"].items() if v}
                bad = []
                if x[1] != proof:
                    bad.append(f"proof size {text(x[1], r['args'])} instead of the recorded {text(proof, r['args'])}")
                for i, k in ((2, "reads"), (3, "writes")):
                    n = at(x[i], r["size"])
                    if n < r[k] or not r["size"] and n != r[k]:
                        bad.append(f"{n} {k} instead of the recorded {r[k]}")
                if at(x[0], r["size"]) < r["time"]:
                    bad.append(f"a time of {at(x[0], r['size'])}, less than the {r['time']} it took at least")
                if bad:
                    out.append(rules.Viol(prop, f"{crate}::{name}:weight:record", f"the weight `{name}` of `{who}` charges {'; '.join(bad)}", site(place(f))))
            for who, f, x in forms[1:]:
                w0, f0, y = forms[0]
                c.stats["obligations"] += 1
                d = [f"{n} {text(b, [])} and {text(a, [])}" for n, a, b in zip(NAMES, x, y) if a != b]
                if d:
                    out.append(rules.Viol(prop, f"{crate}::{name}:weight:tables", f"the tables `{w0}` and `{who}` disagree about the weight `{name}`: {'; '.join(d)}", site(place(f))))
    return out
