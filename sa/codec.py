"""Stored values: what is written to storage is read back, under keys that no two entries share.

The derived Encode and Decode of every type that can be stored are summarised like any other function; the summary of decoding,
fed with the sequence of items that encoding writes, must give back the value. Storage keys must be hashed injectively (or with a
cryptographic hash), and an entry that was never written must read as the value type's default."""
import re

from . import rules, spec, models
from .terms import B, FALSE, TRUE, VARIANTS, RES, alts, eq, int_, is_variant, mk, show, vfield

INJECTIVE = {"Blake2_128Concat", "Twox64Concat", "Identity", "Blake2_256", "Blake2_128"}
VAR_LEN = re.compile(r"(^|[<(, ])(&?\[|[\w:]*Vec<|[\w:]*String\b|[\w:]*BTree|[\w:]*BoundedSlice)")


def split_args(t):
    """generic arguments of `Path<A, B<C>, D>`"""
    i = t.find("<")
    out, d, cur = [], 0, ""
    for j in range(i + 1, len(t) - 1):
        c = t[j]
        if c in "<([{":
            d += 1
        elif c in ">)]}" and t[j - 1] != "-":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + ([cur.strip()] if cur.strip() else [])


def seg(t):
    return t.split("<")[0].split("::")[-1]


def storages(fx, crate):
    """{storage item: its full type} for the items the crate declares"""
    out = {}
    for f in fx.fns.values():
        if f["defcrate"] != crate:
            continue
        for b in f["blocks"]:
            t = b and b["t"]
            if not t or t["k"] != "call":
                continue
            for a in [t["f"].get("self") or ""] + (t["f"].get("args") or [])[:1]:
                m = re.match(r"[\w:]*::(Counted)?Storage(Value|Map|DoubleMap|NMap)<(pallet::)?_GeneratedPrefixForStorage(\w+)<", a)
                if m:
                    out.setdefault(m.group(4), (a, rules.place(f)))
    return out


def keys_of(ty):
    """[(hasher, key type)], the index of the value type"""
    a = split_args(ty)
    k = seg(ty)
    if k == "StorageValue":
        return [], a, 1
    if k in ("StorageMap", "CountedStorageMap"):
        return [(a[1], a[2])], a, 3
    if k == "StorageDoubleMap":
        return [(a[1], a[2]), (a[3], a[4])], a, 5
    ks = a[1].strip("()")
    return [tuple(split_args(x)[:2]) for x in split_args("<" + ks + ">") if seg(x) == "Key"] if a[1].startswith("(") else [tuple(split_args(a[1])[:2])], a, 2


def types_in(fx, crate, t):
    """the crate's own types named in t"""
    out = set()
    for m in re.findall(r"[\w:]+", t):
        k = m if m.startswith(crate + "::") else crate + "::" + m
        if k in fx.adts and fx.adts[k]["crate"] == crate:
            out.add(k)
    return out


def plain(t):
    return re.sub(r"\bCompactRef<('\w+, )?", "Compact<", t.replace("&", "").strip())


def summary(fx, f):
    models.CODEC_OPAQUE[0] = True
    try:
        return spec.Summary(fx, f)
    finally:
        models.CODEC_OPAQUE[0] = False


def round_trip(fx, ty, enc, dec):
    """None, or what does not come back"""
    a = fx.adts[ty]
    e, d = summary(fx, enc), summary(fx, dec)
    if d.ret.op != "phi" and not (d.ret.op == "adt"):
        return "the decoding has no summary"
    self_ = mk("arg", 0)
    vs = [v["name"] for v in a["variants"]]
    seen = {}
    bytes_ = {x.args[1].a[0] & 255 for x in e.effects if x.kind == "call" and x.name.split("::")[-1] == "push_byte" and x.args[1].op == "int"}
    for v in a["variants"]:
        g = is_variant(self_, v["name"], vs) if a["kind"] == "enum" else TRUE
        name = ty.split("::")[-1] + ("::" + v["name"] if a["kind"] == "enum" else "")
        names = [x[0] for x in v["fields"]]
        wr = []
        for x in e.effects:
            if x.kind != "call" or x.name.split("::")[-1] not in ("encode_to", "push_byte"):
                continue
            if B.AND(g, x.pc) == FALSE:
                continue
            if not B.implies(g, x.pc):
                return f"a part of {name} is written only sometimes"
            wr.append(x)
        wr.sort(key=lambda x: x.idx)
        byte = None
        if a["kind"] == "enum":
            if not wr or wr[0].name.split("::")[-1] != "push_byte" or wr[0].args[1].op != "int":
                return f"{name} is written without its index"
            byte = wr.pop(0).args[1].a[0] & 255
            if byte in seen:
                return f"{name} and {seen[byte]} are written with the same index"
            seen[byte] = name
        of = {}
        for f in names:
            t = vfield(self_, v["name"], f) if a["kind"] == "enum" else spec.terms.field(self_, f)
            of[t.id] = f
        order = []
        for x in wr:
            f = of.get(spec.restrict(x.args[0], g).id)
            if f is None:
                return f"{name} is written with {show(x.args[0])[:60]}, which is not one of its fields"
            order.append((f, x.selfty))
        found = False
        for gd, t in alts(d.ret):
            if t.op != "adt" or t.a[1] != "Ok" or gd == FALSE:
                continue
            t = t.a[3]
            if t.op != "adt" or a["kind"] == "enum" and t.a[1] != v["name"]:
                continue
            rd = sorted((x for x in d.effects if x.kind == "call" and x.name.split("::")[-1] in ("decode", "read_byte") and B.implies(gd, x.pc)), key=lambda x: x.idx)
            need = TRUE
            for x in rd:
                need = B.AND(need, is_variant(x.ret, "Ok", VARIANTS[RES]))
            if byte is not None:
                if not rd or rd[0].name.split("::")[-1] != "read_byte":
                    return f"{name} is read without its index"
                got = vfield(rd.pop(0).ret, "Ok", "0")
                b = B.AND(eq(got, int_(byte)), *[B.NOT(eq(got, int_(x))) for x in bytes_ - {byte}])
                if B.AND(gd, b) == FALSE:
                    return f"index {byte} is written for {name} but not read as it"
                need = B.AND(need, b)
            if not B.implies(need, gd):
                return f"{name} is refused although all of its parts could be read"
            vals = dict(zip(t.a[2], t.a[3:]))
            got = {}
            for i, x in enumerate(rd):
                got[vfield(x.ret, "Ok", "0").id] = (i, x.selfty)
            for f in names:
                if vals[f].id not in got:
                    return f"field {f} of {name} does not come back: it is read as {show(vals[f])[:80]}"
            back = [None] * len(rd)
            for f in names:
                i, sty = got[vals[f].id]
                if back[i] is not None:
                    return f"fields {f} and {back[i][0]} of {name} are read from one part"
                back[i] = (f, sty)
            if [x[0] for x in order] != [x and x[0] for x in back]:
                return f"{name} is written as {', '.join(x[0] for x in order)} but read as {', '.join(x[0] if x else 'something else' for x in back)}"
            for (f, s1), (_, s2) in zip(order, back):
                if plain(s1) != plain(s2):
                    return f"field {f} of {name} is written as {s1} but read as {s2}"
            found = True
        if not found:
            return f"{name} is never read back"
    return None


def stored(prop, c, crates):
    fx, st = c.fx, c.stats
    out = []
    for crate in crates:
        if crate not in fx.crates:
            continue
        items = storages(fx, crate)
        types = set()
        for item, (ty, at) in sorted(items.items()):
            ks, a, vi = keys_of(ty)
            st["functions"][f"{crate}::{item}"] = ty.split("<")[0].split("::")[-1]
            for i, (h, k) in enumerate(ks):
                st["obligations"] += 1
                if seg(h) not in INJECTIVE:
                    out.append(rules.Viol(prop, f"{crate}::{item}:key", f"the keys of `{item}` are hashed with {seg(h)}, under which two keys can share an entry", None))
                elif seg(h) == "Identity" and len(ks) > 1 and i + 1 < len(ks) and VAR_LEN.search(k):
                    out.append(rules.Viol(prop, f"{crate}::{item}:key", f"key {i + 1} of `{item}` has no fixed length and is not hashed: two pairs of keys can share an entry", None))
            st["obligations"] += 1
            rest = a[vi + 1:]
            if any(seg(x) == "ValueQuery" for x in rest[:1]) and len(rest) > 1 and seg(rest[1]) != "GetDefault" and not re.match(r"<T as [\w:]*Config>::", rest[1]):
                out.append(rules.Viol(prop, f"{crate}::{item}:default", f"an entry of `{item}` that was never written reads as {rest[1]} instead of its type's default", None))
            types |= types_in(fx, crate, a[vi])
            for _, k in ks:
                types |= types_in(fx, crate, k)
        work = list(types)
        while work:
            t = work.pop()
            for v in fx.adts[t]["variants"]:
                for f in v["fields"]:
                    for u in types_in(fx, crate, f[1]) - types:
                        types.add(u)
                        work.append(u)
        cod = {}
        for f in fx.codecs:
            if f["defcrate"] != crate:
                continue
            m = re.search(r"<impl (?:[\w]+::)*(Encode|Decode) for (.*)>::(encode_to|decode)$", f["path"])
            if not m:
                continue
            t = m.group(2).split("<")[0]
            t = t if t.startswith(crate + "::") else crate + "::" + t
            cod.setdefault(t, {})[m.group(1)] = f
        for t in sorted(types):
            p = cod.get(t, {})
            if len(p) < 2:
                if any(i["crate"] == crate and i["self"].split("<")[0] == t.split("::", 1)[1] and i["trait"].endswith("codec::Encode") for i in fx.impls):
                    st.setdefault("handwritten", []).append(t)
                continue
            st["obligations"] += 1
            st["functions"][t + " (Encode, Decode)"] = rules.site(rules.place(p["Encode"]))
            x = round_trip(fx, t, p["Encode"], p["Decode"])
            if x:
                out.append(rules.Viol(prop, f"{t}:codec", x, rules.site(rules.place(p["Decode"]))))
    return out
