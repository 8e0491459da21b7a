"""Loads the JSON facts written by the rustc driver."""
import json
import os
import re

from . import terms


def strip_generics(p):
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<" and not (p[i:i + 6] == "<impl " or (i == 0)):
            d += 1
        elif c == ">" and d and p[i - 1] != "-":
            d -= 1
            i += 1
            continue
        if d == 0:
            out.append(c)
        i += 1
    return "".join(out).replace("::::", "::")


_sn = {}


def short_name(path):
    """last two path segments, generics removed: `Vec::push`, `Iterator::map`, `MutateHold::hold`"""
    r = _sn.get(path)
    if r is not None:
        return r
    segs, cur, d = [], "", 0
    i = 0
    while i < len(path):
        c = path[i]
        if c in "<([{":
            d += 1
        elif c in ">)]}" and path[i - 1] != "-":
            d -= 1
        if d == 0 and path[i:i + 2] == "::":
            segs.append(cur)
            cur = ""
            i += 2
            continue
        cur += c
        i += 1
    segs.append(cur)
    names = []
    for s in segs:
        if s.startswith("<"):
            m = re.match(r"<impl (.*)>$", s)
            if m:
                x = m.group(1)
                if " for " in x:
                    x = x.split(" for ")[-1]
                s = "slice" if x.startswith("[") else x.split("<")[0].split("::")[-1]
            else:
                m = re.match(r"<(.*) as (.*)>$", s)
                if m:
                    s = m.group(2).split("<")[0].split("::")[-1]
                else:
                    if len(segs) > 1 and s is not segs[0]:
                        continue
                    s = s.strip("<>").split("<")[0].split("::")[-1]
        elif "<" in s:
            s = s.split("<")[0]
        if s:
            names.append(s)
    r = "::".join(names[-2:])
    _sn[path] = r
    return r


def short_ty(t):
    """`<T as pallet::Config>::Fungible` -> `Fungible`; `T` -> `T`"""
    t = t.strip()
    while t.startswith("&"):
        t = t[1:].replace("mut ", "", 1).strip()
    m = re.match(r"^<.*>::(\w+)$", t)
    if m:
        return m.group(1)
    return t.split("<")[0].split("::")[-1]


class Facts:
    def __init__(self):
        self.fns = {}
        self.by_path = {}
        self.adts = {}
        # what a call's declaration is made of, also where no code of the crate takes it apart
        for n, vs in (("DispatchClass", ("Normal", "Operational", "Mandatory")), ("Pays", ("Yes", "No"))):
            self.adts["frame_support::dispatch::" + n] = {"kind": "enum", "crate": "frame_support", "span": None,
                                                          "variants": [{"name": v, "disc": i, "fields": []} for i, v in enumerate(vs)]}
            terms.VARIANTS.setdefault("frame_support::dispatch::" + n, list(vs))
        self.impls = []
        self.codecs = []  # derived Encode::encode_to and Decode::decode
        self.crates = []

    def load(self, path):
        with open(path) as fh:
            d = json.load(fh)
        c = d["crate"]
        self.crates.append(c)
        for f in d["fns"]:
            k = f["key"]
            if f.get("codec"):
                f["defcrate"] = c
                self.codecs.append(f)
                continue
            if k in self.fns and not f["root"]:
                continue
            f["defcrate"] = c
            tail_to_loop(f)
            self.fns[k] = f
            if f["root"]:
                self.by_path.setdefault(f["path"], []).append(f)
        for k, v in d["adts"].items():
            k = terms.norm_path(k)
            v["crate"] = c
            self.adts[k] = v
            if v["kind"] == "enum":
                terms.VARIANTS.setdefault(k, [x["name"] for x in v["variants"]])
        for i in d["impls"]:
            i["crate"] = c
            self.impls.append(i)

    def find(self, crate, name, impl=None):
        """root functions of `crate` whose last path segment is `name`"""
        r = []
        for p, fs in self.by_path.items():
            if fs[0]["crate"] != crate:
                continue
            if p.split("::")[-1] == name and (impl is None or impl in p):
                r += fs
        return r

    def enum_variants(self, crate, suffix):
        for k, v in self.adts.items():
            if v["crate"] == crate and (k == suffix or k.endswith("::" + suffix)):
                return v["variants"]
        return None


def returns_only(f, b):
    """from block b on, f does nothing but return"""
    for _ in range(len(f["blocks"])):
        k = f["blocks"][b]
        if k is None or k["s"]:
            return False
        if k["t"]["k"] == "goto":
            b = k["t"]["t"]
        else:
            return k["t"]["k"] in ("ret", "return")
    return False


def tail_to_loop(f):
    """a function that ends by calling itself on other arguments is a loop over its parameters"""
    bs = f["blocks"]
    calls = []
    for i, b in enumerate(bs):
        t = b and b["t"]
        if t and t["k"] == "call" and (t["f"].get("inst") == f["key"] or t["f"].get("inst") is None and t["f"].get("path") == f["path"]
                                       or t["f"].get("path") == f["path"] and not f["closure"]):
            if t["d"] != [0, []] or t.get("t") is None or not returns_only(f, t["t"]) or len(t["a"]) != f["nargs"]:
                return
            calls.append(b)
    if not calls:
        return
    n = len(bs)
    bs.append(bs[0])
    bs[0] = {"s": [], "t": {"k": "goto", "t": n}}
    for b in calls:
        if b is bs[0]:
            b = bs[n]
        t, sp = b["t"], b["t"].get("sp")
        base = len(f["locals"])
        for j, a in enumerate(t["a"]):
            f["locals"].append(f["locals"][j + 1])
            b["s"] = b["s"] + [[[base + j, []], ["use", a], sp]]
        for j in range(len(t["a"])):
            b["s"] = b["s"] + [[[j + 1, []], ["use", {"mv": [base + j, []]}], sp]]
        b["t"] = {"k": "goto", "t": n}


def load_dir(d, names=None):
    fx = Facts()
    for n in sorted(os.listdir(d)):
        if n.endswith(".json") and (names is None or n[:-5] in names):
            fx.load(os.path.join(d, n))
    return fx
