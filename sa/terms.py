"""Hash-consed value terms and the boolean atoms built from them."""
from .bdd import BDD

B = BDD()
TRUE, FALSE = 1, 0


class T:
    __slots__ = ("op", "a", "id", "_s")

    def __repr__(self):
        return show(self)


_tab = {}
_all = []


def mk(op, *a):
    k = (op,) + tuple((("t", x.id) if isinstance(x, T) else ("p", x)) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id, t._s = op, a, len(_all), None
        _tab[k] = t
        _all.append(t)
    return t


# --- atoms -------------------------------------------------------------------
_atom_of = {}
_var_atom = []


def atom(t):
    v = _atom_of.get(t.id)
    if v is None:
        v = len(_var_atom)
        _atom_of[t.id] = v
        _var_atom.append(t)
    return B.var(v)


def atom_term(v):
    return _var_atom[v]


def boolt(b):
    return mk("bool", b)


def int_(n):
    return mk("int", n)


UNIT = mk("tuple")
UNDEF = mk("undef")


def adt(path, variant, names, vals):
    return mk("adt", path, variant, tuple(names), *vals)


OPT, RES, CF, ORD = "std::option::Option", "std::result::Result", "std::ops::ControlFlow", "std::cmp::Ordering"


def some(v):
    return adt(OPT, "Some", ("0",), (v,))


NONE = adt(OPT, "None", (), ())


def ok(v):
    return adt(RES, "Ok", ("0",), (v,))


def err(v):
    return adt(RES, "Err", ("0",), (v,))


def norm_path(p):
    return p.replace("core::option::", "std::option::").replace("core::result::", "std::result::").replace(
        "core::ops::", "std::ops::").replace("core::cmp::", "std::cmp::")


# --- guarded alternatives ------------------------------------------------------
def alts(v):
    if v.op == "phi":
        return [(v.a[i], v.a[i + 1]) for i in range(0, len(v.a), 2)]
    return [(TRUE, v)]


def mkphi(pairs):
    """pairs: [(guard, term)]; guards are disjoint."""
    flat = []
    for g, t in pairs:
        if g == FALSE or t is None:
            continue
        if t.op == "phi":
            for g2, t2 in alts(t):
                gg = B.AND(g, g2)
                if gg != FALSE:
                    flat.append((gg, t2))
        else:
            flat.append((g, t))
    by = {}
    for g, t in flat:
        by[t.id] = (B.OR(by[t.id][0], g), t) if t.id in by else (g, t)
    real = [x for x in by.values() if x[1] is not UNDEF]
    out = real or list(by.values())
    if not out:
        return UNDEF
    if len(out) == 1:
        return out[0][1]
    if all(t.op == "bool" for _, t in out):
        return boolt(B.OR(*[B.AND(g, t.a[0]) for g, t in out]))
    for h, q in out:
        if q.op in ("maxover", "minover", "sum") and q.a[2].a[0] == TRUE:
            # combining nothing with p is p
            for g, p in out:
                if p is q.a[0] and B.implies(g, eq(mk("len", q.a[1]), int_(0))):
                    return mkphi([(B.OR(g, h) if t is q else x, t) for x, t in out if t is not p])
    t0 = out[0][1]
    if t0.op in ("adt", "tuple", "array") and all(t.op == t0.op for _, t in out):
        if t0.op == "adt":
            if all(t.a[:3] == t0.a[:3] for _, t in out):
                vals = [mkphi([(g, t.a[3 + i]) for g, t in out]) for i in range(len(t0.a) - 3)]
                return mk("adt", *t0.a[:3], *vals)
        elif all(len(t.a) == len(t0.a) for _, t in out):
            return mk(t0.op, *[mkphi([(g, t.a[i]) for g, t in out]) for i in range(len(t0.a))])
    if t0.op == "closure" and all(t.op == "closure" and t.a[0] == t0.a[0] for _, t in out):
        return mk("closure", t0.a[0], *[mkphi([(g, t.a[i]) for g, t in out]) for i in range(1, len(t0.a))])
    if len(out) == 2:
        # if a < b { a } else { b }  ==  min(a, b)
        (g1, x), (g2, y) = out
        n = B.nodes[g1]
        if n[1:] in ((0, 1), (1, 0)) and g2 == B.NOT(g1):
            at = atom_term(n[0])
            if at.op == "eq":
                # if a == b { b } else { a }  ==  a
                p, q = at.a
                pos = n[1:] == (0, 1)
                same_, other = (x, y) if pos else (y, x)
                if same_ in (p, q) and other in (p, q):
                    return other
            if at.op == "lt":
                p, q = at.a
                pos = n[1:] == (0, 1)
                if not pos:
                    x, y = y, x
                # if a < b { 0 } else { a - b }  ==  a saturating_sub b  (and the mirrored form)
                if x.op == "int" and x.a[0] == 0 and y.op in ("sub", "satsub") and y.a[0] is p and y.a[1] is q:
                    return mk("satsub", p, q)
                if y.op == "int" and y.a[0] == 0 and x.op in ("sub", "satsub") and x.a[0] is q and x.a[1] is p:
                    return mk("satsub", q, p)
                pos = True
                if (x is p and y is q) or (x is q and y is p):
                    return mk("min" if (x is p) == pos else "max", *sorted((x, y), key=lambda t: t.id))
    elif len(out) <= 6:
        r = fold_larger(out)
        if r is not None:
            return mkphi(r)
    out.sort(key=lambda p: p[1].id)
    f = []
    for g, t in out:
        f += [g, t]
    return mk("phi", *f)


def fold_larger(out):
    """of more than two alternatives, two that are told apart by which of them is larger"""
    by = {t.id: (g, t) for g, t in out}
    for g, x in out:
        for v in B.support(g):
            at = atom_term(v)
            if at.op != "lt" or x not in at.a:
                continue
            p, q = at.a
            y = q if x is p else p
            if y.id not in by or y is x:
                continue
            h = B.OR(B.cofactor(g, v, True), B.cofactor(g, v, False))
            below = g == B.AND(h, B.var(v))
            if not below and g != B.AND(h, B.NOT(B.var(v))):
                continue
            if not B.implies(B.AND(h, B.NOT(g)), by[y.id][0]):
                continue
            # x where p < q (or where not), y in the rest of h
            m = "min" if below == (x is p) else "max"
            m = mk(m, *sorted((x, y), key=lambda t: t.id))
            return [(B.AND(z, B.NOT(h)), t) for z, t in out] + [(h, m)]
    return None


def under(v, pc):
    """v as seen where path condition pc holds."""
    if v.op == "phi":
        ps = [(B.constrain(g, pc), t) for g, t in alts(v) if B.AND(g, pc) != FALSE]
        return mkphi(ps) if ps else v
    if v.op == "bool":
        b = v.a[0]
        if b not in (0, 1):
            if B.AND(b, pc) == FALSE:
                return boolt(0)
            if B.implies(pc, b):
                return boolt(1)
    return v


def liftmap(v, f):
    if v.op == "phi":
        return mkphi([(g, f(t)) for g, t in alts(v)])
    return f(v)


# --- enum tests ------------------------------------------------------------------
_first = {OPT: "Some", RES: "Ok", CF: "Continue"}
VARIANTS = {}  # adt path -> [variant names]
VARIANTS[OPT] = ["None", "Some"]
VARIANTS[RES] = ["Ok", "Err"]
VARIANTS[CF] = ["Continue", "Break"]
VARIANTS[ORD] = ["Less", "Equal", "Greater"]

KNOWN_ISSOME = {}  # term id -> guard, for opaque Option/Result terms with a known test


def is_leaf(x, variant, vs):
    if x.op == "adt":
        return TRUE if x.a[1] == variant else FALSE
    if x.op == "undef":
        return FALSE
    if x.op == "upd":
        return is_leaf_up(x.a[0], variant, vs)
    if x.op == "cdiv" and x.a[1].op == "int" and x.a[1].a[0] != 0 and variant in ("Some", "None"):
        return TRUE if variant == "Some" else FALSE
    if x.op in ("cadd", "csub", "cmul") and variant in ("Some", "None") and any(
            y.op == "int" and y.a[0] == (1 if x.op == "cmul" else 0) for y in (x.a if x.op != "csub" else x.a[1:])):
        return TRUE if variant == "Some" else FALSE
    if x.op == "csub" and variant in ("Some", "None") and len(x.a) == 2:
        k = B.NOT(lt(x.a[0], x.a[1]))
        return k if variant == "Some" else B.NOT(k)
    k = KNOWN_ISSOME.get(x.id)
    if k is not None and variant in ("Some", "Ok", "None", "Err"):
        return k if variant in ("Some", "Ok") else B.NOT(k)
    s = set(vs)
    for f in ("Some", "Ok", "Continue"):
        if f in s and len(vs) == 2:
            b = atom(mk("is", x, f))
            return b if variant == f else B.NOT(b)
    g = TRUE
    for i, n in enumerate(vs):
        last = i == len(vs) - 1
        if n == variant:
            return g if last else B.AND(g, atom(mk("is", x, n)))
        g = B.AND(g, B.NOT(atom(mk("is", x, n))))
    return atom(mk("is", x, variant))


def is_leaf_up(x, variant, vs):
    return is_variant(x, variant, vs)


def is_variant(v, variant, vs):
    return B.OR(*[B.AND(g, is_leaf(t, variant, vs)) for g, t in alts(v)])


def liftable(a, b):
    """distribute a binary operation over guarded alternatives only while the product stays small"""
    n = (len(a.a) // 2 if a.op == "phi" else 1) * (len(b.a) // 2 if b.op == "phi" else 1)
    return n <= MAXLIFT


MAXLIFT = 4


def enumlike(v):
    return any(t.op in ("adt", "bool") for _, t in alts(v)) or (len(v.a) <= 32 and all(t.op == "int" for _, t in alts(v)))


# --- comparisons ------------------------------------------------------------------
def const_of(t):
    return t.a[0] if t.op == "int" else None


def unsigned(t):
    return t.op == "len" or t.op in ("add", "satadd") and all(unsigned(z) for z in t.a) or t.op == "int" and t.a[0] >= 0


NONE_COUNTED = None  # set by flow


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "phi" and (liftable(a, b) or enumlike(a)):
        return B.OR(*[B.AND(g, eq(t, b)) for g, t in alts(a)])
    if b.op == "phi" and (liftable(a, b) or enumlike(b)):
        return B.OR(*[B.AND(g, eq(a, t)) for g, t in alts(b)])
    if a.op == "bool" or b.op == "bool":
        x, y = as_bool(a), as_bool(b)
        return B.ite(x, y, B.NOT(y))
    if a.op == "int" and b.op == "int":
        return FALSE
    if a.op in ("str",) and b.op == a.op:
        return FALSE
    if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
        return B.AND(*[eq(x, y) for x, y in zip(a.a, b.a)])
    for x, y in ((a, b), (b, a)):
        if x.op == "adt":
            p, var, names = x.a[:3]
            if y.op == "adt":
                if var != y.a[1]:
                    return FALSE
                return B.AND(*[eq(m, n) for m, n in zip(x.a[3:], y.a[3:])])
            if var is None and names:
                return B.AND(*[eq(field(y, n), m) for n, m in zip(names, x.a[3:])])
            if var is not None and p in VARIANTS:
                g = is_leaf(y, var, VARIANTS[p])
                for n, m in zip(names, x.a[3:]):
                    g = B.AND(g, eq(vfield(y, var, n), m))
                return g
    for x, y in ((a, b), (b, a)):
        if x.op == "int" and y.op == "and" and any(z.op == "int" for z in y.a):
            m = [z.a[0] for z in y.a if z.op == "int"][0]
            if x.a[0] & ~m:
                return FALSE
            if m == 0:
                return TRUE
            if x.a[0] == m and m & (m - 1) == 0:  # one bit: set iff not clear
                return B.NOT(eq(y, int_(0)))
    for x, y in ((a, b), (b, a)):
        if x.op == "int" and x.a[0] == 0 and y.op in ("add", "satadd") and len(y.a) == 2 and all(unsigned(z) for z in y.a):
            return B.AND(eq(x, y.a[0]), eq(x, y.a[1]))
    for x, y in ((a, b), (b, a)):
        if x.op == "int" and x.a[0] == 0 and y.op == "sum":
            z = NONE_COUNTED(y)
            if z is not None:
                return z
    for x, y in ((a, b), (b, a)):
        if x.op == "int" and y.op == "max" and any(z.op == "int" and z.a[0] > x.a[0] for z in y.a):
            return FALSE
    # order comparisons against zero: 0 is the least unsigned value, keep eq(x, 0)
    x, y = (a, b) if a.id < b.id else (b, a)
    if (a.op in PAIRED or b.op in PAIRED) and a.op != "int" and b.op != "int":
        return B.AND(B.NOT(atom(mk("lt", x, y))), atom(mk("eq", x, y)))
    return atom(mk("eq", x, y))


# quantities whose three possible orders are told apart by two atoms, so that they exclude each other
PAIRED = {"div", "rem"}


LENGTH = [lambda v: mk("len", v)]
MOREOF = [lambda v: atom(mk("more", v))]


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "ctr" and b is LENGTH[0](a.a[0]):
        return MOREOF[0](a.a[0])
    if a.op == "phi" and any(t.op == "pos" and len(t.a) == 1 for _, t in alts(a)):
        return B.OR(*[B.AND(g, lt(t, under(b, g))) for g, t in alts(a)])
    if a.op == "phi" and (liftable(a, b) or enumlike(a)):
        return B.OR(*[B.AND(g, lt(t, b)) for g, t in alts(a)])
    if b.op == "phi" and (liftable(a, b) or enumlike(b)):
        return B.OR(*[B.AND(g, lt(a, t)) for g, t in alts(b)])
    if a.op == "int" and b.op == "int":
        return TRUE if a.a[0] < b.a[0] else FALSE
    if a.op in ("pos", "bspos") and b is LENGTH[0](a.a[0]):
        return TRUE  # where something was found
    if b.op in ("pos", "bspos", "ins", "bsins") and a is LENGTH[0](b.a[0]):
        return FALSE
    if a.op in ("sub", "satsub") and a.a[0] is b and a.a[1].op == "int" and a.a[1].a[0] > 0:
        return B.NOT(eq(b, int_(0)))
    if b.op == "min" and any(z is a for z in b.a) or a.op == "max" and any(z is b for z in a.a):
        return FALSE
    if a.op == "int" and a.a[0] == 0:
        return B.NOT(eq(a, b))  # unsigned: 0 < b  <=>  b != 0
    if b.op == "int" and b.a[0] == 0:
        return FALSE
    if b.op == "int" and b.a[0] == 1:
        return eq(a, int_(0))  # unsigned: a < 1  <=>  a == 0
    if b.op == "int":
        # integers: a < n  ==  !(n-1 < a)
        pass
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0] and a.a[0] in VARIANTS and a.a[1] != b.a[1]:
        vs = VARIANTS[a.a[0]]
        return TRUE if vs.index(a.a[1]) < vs.index(b.a[1]) else FALSE
    if a.op == "int":
        # n < b  ==  !(b < n+1)   (integers)
        return B.NOT(lt(b, int_(a.a[0] + 1)))
    if (a.op in PAIRED or b.op in PAIRED) and b.op != "int" and a.id > b.id:
        return B.AND(B.NOT(atom(mk("lt", b, a))), B.NOT(atom(mk("eq", b, a))))
    return atom(mk("lt", a, b))


def as_bool(v):
    if v.op == "bool":
        return v.a[0]
    if v.op == "phi":
        return B.OR(*[B.AND(g, as_bool(t)) for g, t in alts(v)])
    if v.op == "int":
        return TRUE if v.a[0] else FALSE
    if v.op == "undef":
        return FALSE
    return atom(v)


# --- projections ----------------------------------------------------------------
def field(v, name):
    if v.op == "phi":
        return mkphi([(g, field(t, name)) for g, t in alts(v)])
    if v.op == "adt":
        names = v.a[2]
        if name in names:
            return v.a[3 + names.index(name)]
        return UNDEF
    if v.op == "tuple":
        i = int(name)
        return v.a[i] if i < len(v.a) else UNDEF
    if v.op == "closure":
        return v.a[1 + int(name)]
    if v.op == "upd":
        base = v.a[0]
        for i in range(1, len(v.a), 2):
            if v.a[i] == name:
                return v.a[i + 1]
        return field(base, name)
    if v.op in ("undef", "boxuninit"):
        return v
    return mk("fld", v, name)


CHECKED = {"cadd": "add", "csub": "sub", "cmul": "mul", "cdiv": "div", "crem": "rem"}


def vfield(v, variant, name):
    """field `name` of v downcast to `variant`"""
    if v.op == "phi":
        return mkphi([(g, vfield(t, variant, name)) for g, t in alts(v)])
    if v.op == "adt":
        if v.a[1] != variant:
            return UNDEF
        return field(v, name)
    if v.op == "undef":
        return UNDEF
    if v.op == "upd":
        k = variant + "." + name
        for i in range(1, len(v.a), 2):
            if v.a[i] == k:
                return v.a[i + 1]
        return vfield(v.a[0], variant, name)
    if v.op in CHECKED and variant == "Some":
        return arith(CHECKED[v.op], *v.a)
    return mk("vf", v, variant, name)


def upd(v, key, val):
    """v with field `key` replaced (key 'name' or 'Variant.name')"""
    if v.op == "phi":
        return mkphi([(g, upd(t, key, val)) for g, t in alts(v)])
    if v.op == "adt":
        nm = key.split(".", 1)[1] if "." in key else key
        if "." in key and v.a[1] != key.split(".", 1)[0]:
            return v
        names = v.a[2]
        if nm in names:
            vals = list(v.a[3:])
            vals[names.index(nm)] = val
            return mk("adt", *v.a[:3], *vals)
        return v
    if v.op == "tuple":
        vals = list(v.a)
        if int(key) < len(vals):
            vals[int(key)] = val
        return mk("tuple", *vals)
    if v.op == "closure":
        vals = list(v.a)
        vals[1 + int(key)] = val
        return mk("closure", *vals)
    if v.op == "upd":
        base, kv = v.a[0], [[v.a[i], v.a[i + 1]] for i in range(1, len(v.a), 2)]
    else:
        base, kv = v, []
    kv = [x for x in kv if x[0] != key]
    orig = vfield(base, *key.split(".", 1)) if "." in key else field(base, key)
    if orig is not val:
        kv.append([key, val])
    kv.sort(key=lambda x: x[0])
    if not kv:
        return base
    f = []
    for k, x in kv:
        f += [k, x]
    return mk("upd", base, *f)


COMM = {"add", "mul", "satadd", "satmul", "max", "min", "cadd", "cmul", "and", "or", "xor"}


def arith(op, *a):
    a = list(a)
    if len(a) == 2:
        x, y = a
        if x.op == "int" and y.op == "int":
            p, q = x.a[0], y.a[0]
            r = {"add": lambda: p + q, "sub": lambda: p - q if p >= q else None, "mul": lambda: p * q, "satadd": lambda: p + q,
                 "satsub": lambda: max(p - q, 0), "satmul": lambda: p * q, "max": lambda: max(p, q), "min": lambda: min(p, q),
                 "shl": lambda: p << q, "shr": lambda: p >> q, "and": lambda: p & q, "or": lambda: p | q, "xor": lambda: p ^ q,
                 "div": lambda: p // q if q else None, "rem": lambda: p % q if q else None}.get(op)
            if r is not None and r() is not None:
                return int_(r())
        z0 = x.op == "int" and x.a[0] == 0
        z1 = y.op == "int" and y.a[0] == 0
        if op in ("add", "satadd", "or"):
            if z0:
                return y
            if z1:
                return x
        if op in ("sub", "satsub", "shl", "shr") and z1:
            return x
        if op in ("sub", "satsub") and y.op == "min" and any(z is x for z in y.a):
            return arith("satsub", x, y.a[1] if y.a[0] is x else y.a[0])
        if op in ("max",):
            if z0:
                return y
            if z1:
                return x
        if op in ("mul", "satmul"):
            if x.op == "int" and x.a[0] == 1:
                return y
            if y.op == "int" and y.a[0] == 1:
                return x
        if op == "div" and y.op == "int" and y.a[0] == 1:
            return x
        if op in ("max", "min") and x is y:
            return x
        for p, q in ((x, y), (y, x)):
            if op in ("max", "min") and p.op == op + "over" and q.op != op + "over":
                return mk(p.op, arith(op, p.a[0], q) if not (op == "min" and p.a[0].op == "const") else q, *p.a[1:])
        if op in ("and", "or", "xor") and (x.op == "bool" or y.op == "bool"):
            p, q = as_bool(x), as_bool(y)
            if op == "and":
                return boolt(B.AND(p, q))
            if op == "or":
                return boolt(B.OR(p, q))
            return boolt(B.ite(p, B.NOT(q), q))
        if op in ASSOC and (x.op == op or y.op == op):
            f, todo = [], [y, x]
            while todo:
                z = todo.pop()
                if z.op == op and len(z.a) == 2:
                    todo += [z.a[1], z.a[0]]
                else:
                    f.append(z)
            f.sort(key=lambda t: (t.op == "lv", t.op != "int", t.id))
            if op in ("max", "min"):
                f = list(dict.fromkeys(f))
            r = f[0]
            for z in f[1:]:
                r = arith2(op, r, z)
            return r
        if op in COMM:
            a.sort(key=lambda t: t.id)
    return mk(op, *a)


ASSOC = {"add", "satadd", "max", "min", "and", "or", "xor"}


def arith2(op, x, y):
    if x.op == "int" or y.op == "int" and x.op == "int":
        return arith(op, x, y)
    return mk(op, *sorted((x, y), key=lambda t: t.id))


MAXSHOW = int(__import__("os").environ.get("MS", "700"))


# --- printing ---------------------------------------------------------------------
def bshow(b, limit=12):
    if b == TRUE:
        return "true"
    if b == FALSE:
        return "false"
    # factor out literals implied by b
    lits, rest = [], b
    for v in sorted(B.support(b)):
        x = B.var(v)
        if B.implies(b, x):
            lits.append((v, True))
        elif B.implies(b, B.NOT(x)):
            lits.append((v, False))
    for v, p in lits:
        rest = B.cofactor(rest, v, p)
    s = [("" if p else "!") + show(atom_term(v)) for v, p in lits]
    if rest != TRUE:
        cs = B.cubes(rest, limit + 1)
        d = " | ".join(" & ".join(("" if p else "!") + show(atom_term(v)) for v, p in c) for c in cs[:limit])
        if len(cs) > limit:
            d += " | ..."
        s.append("(" + d + ")")
    return " & ".join(s)


def lastseg(p):
    return p.split("::")[-1]


def show(t):
    if not isinstance(t, T):
        return str(t)
    if t._s is not None:
        return t._s
    s = _show(t)
    if len(s) > MAXSHOW:
        s = s[:MAXSHOW - 12] + f"...#{t.id}"
    t._s = s
    return s


def _show(t):
    o, a = t.op, t.a
    if o == "int":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "bool":
        return "{" + bshow(a[0]) + "}"
    if o == "arg":
        return f"${a[0]}"
    if o == "cfg":
        return f"cfg({a[0]})"
    if o == "adt":
        n = lastseg(a[0]) + ("::" + a[1] if a[1] else "")
        if not a[2]:
            return n
        return n + "{" + ", ".join(f"{k}: {show(v)}" for k, v in zip(a[2], a[3:])) + "}"
    if o == "fld":
        return f"{show(a[0])}.{a[1]}"
    if o == "vf":
        return f"{show(a[0])}.{a[1]}.{a[2]}" if a[1] not in ("Some", "Ok") else f"{show(a[0])}?"
    if o == "tuple":
        return "(" + ", ".join(show(x) for x in a) + ")"
    if o == "phi":
        return "phi[" + "; ".join(f"{bshow(a[i], 4)} -> {show(a[i+1])}" for i in range(0, len(a), 2)) + "]"
    if o == "upd":
        return show(a[0]) + " with {" + ", ".join(f"{a[i]}: {show(a[i+1])}" for i in range(1, len(a), 2)) + "}"
    if o == "get":
        return f"{a[0]}[{', '.join(show(x) for x in a[1:])}]"
    if o == "call":
        return f"{a[0]}({', '.join(show(x) for x in a[1:])})"
    if o == "closure":
        return "|closure " + a[0].split("#")[0].split("::")[-2] + "|"
    if o == "seq":
        return f"seq({show(a[0])}, {bshow(a[1])}, {show(a[2])})"
    if o == "any":
        return f"any({show(a[0])}: {bshow(a[1])})"
    if o == "is":
        return f"is({show(a[0])}, {a[1]})"
    return f"{o}(" + ", ".join(show(x) for x in a) + ")"
