"""Summaries of entry points and the comparisons the rules are written with."""
from .terms import *
from . import terms, flow
from .flow import elem, index, length, liftarith

_memo = {}
ARITH = {"add", "sub", "mul", "div", "rem", "satadd", "satsub", "satmul", "cadd", "csub", "cmul", "cdiv", "min", "max", "and", "or", "xor",
         "shl", "shr"}


def restrict(t, pc):
    """t as seen where pc holds, at every depth"""
    if not isinstance(t, T) or pc == TRUE and t.op in ("int", "str", "arg", "cfg", "now"):
        return t
    k = (t.id, pc)
    r = _memo.get(k)
    if r is not None:
        return r
    o, a = t.op, t.a
    if o == "phi":
        ps = []
        for g, x in alts(t):
            gg = B.AND(g, pc)
            if gg != FALSE:
                ps.append((B.constrain(g, pc), restrict(x, gg)))
        r = mkphi(ps) if ps else t
    elif o == "bool":
        b = a[0]
        if b not in (0, 1):
            if B.AND(b, pc) == FALSE:
                b = 0
            elif B.implies(pc, b):
                b = 1
            else:
                b = B.constrain(b, pc)
        r = boolt(b)
    elif o in ("int", "str", "arg", "cfg", "now", "ref", "zst", "const", "fn", "undef"):
        r = t
    elif o == "fld":
        r = field(restrict(a[0], pc), a[1])
    elif o == "vf":
        r = vfield(restrict(a[0], pc), a[1], a[2])
    elif o == "upd":
        r = restrict(a[0], pc)
        for i in range(1, len(a), 2):
            r = upd(r, a[i], restrict(a[i + 1], pc))
    elif o in ARITH and len(a) == 2:
        r = liftarith(o, restrict(a[0], pc), restrict(a[1], pc))
        if r.op in ("max", "min") and pc != TRUE and len(r.a) == 2:
            x, y = r.a
            if B.implies(pc, lt(x, y)) or B.implies(pc, B.NOT(lt(y, x))):
                r = y if r.op == "max" else x
            elif B.implies(pc, lt(y, x)) or B.implies(pc, B.NOT(lt(x, y))):
                r = x if r.op == "max" else y
    elif o == "len":
        r = length(restrict(a[0], pc))
    elif o == "elem":
        r = elem(restrict(a[0], pc))
    elif o == "index":
        r = index(restrict(a[0], pc), restrict(a[1], pc))
    elif o in ("seq", "any", "sum", "pos", "ins", "acc", "lam"):
        r = t if not any(isinstance(x, T) and x.op == "phi" for x in a) else mk(o, *[restrict(x, pc) if isinstance(x, T) else x for x in a])
    else:
        r = mk(o, *[restrict(x, pc) if isinstance(x, T) else x for x in a])
    _memo[k] = r
    return r


LAST = []
OPAQUE = {"get", "arg", "call", "fld", "vf", "elem", "index", "first"}


def same(a, b, pc=TRUE, d=0):
    """a and b denote the same value wherever pc holds"""
    if d == 0:
        LAST.clear()
    r = same_(a, b, pc, d)
    if not r and d == 0:
        first = list(LAST)
        r = by_order(a, b, pc, 0)
        LAST[:] = first
    if not r and not LAST:
        LAST.append((a, b, pc))
    return r


def same_(a, b, pc, d):
    if pc == FALSE or a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if x.op == "anything":
            return True
    a, b = restrict(a, pc), restrict(b, pc)
    if a is b:
        return True
    if d == 0:
        pc = norm(pc)
        if pc == FALSE:
            return True
        a, b = restrict(normt(a), pc), restrict(normt(b), pc)
        if a is b:
            return True
    if d > 200:
        return False
    if flow.is_empty_coll(a) and flow.is_empty_coll(b):
        return True
    for x, y in ((a, b), (b, a)):
        if x.op == "phi":
            return all(same_(t, y, B.AND(g, pc), d + 1) or note(t, y, B.AND(g, pc)) for g, t in alts(x))
    for x, y in ((a, b), (b, a)):
        if x.op == "anywith":
            return flow.mentions(y, x.a[0]) or flow.mentions(normt(y), normt(x.a[0]))
    if a.op == "bool" or b.op == "bool":
        if a.op in ("bool", "int") and b.op in ("bool", "int"):
            x, y = as_bool(a), as_bool(b)
            return beq(x, y, pc) or note(a, b, pc)
    # split on guards buried inside
    g = inner_guard(a) or inner_guard(b)
    if g is not None:
        g1, g2 = B.AND(pc, g), B.AND(pc, B.NOT(g))
        if g1 != FALSE and g2 != FALSE:
            return same_(a, b, g1, d + 1) and same_(a, b, g2, d + 1)
    for x, y in ((a, b), (b, a)):
        # a constructed value against an updated or untouched one: field by field
        if x.op == "adt" and y.op != "adt":
            if x.a[1] is None:
                return all(same_(field(y, n), m, pc, d + 1) or note(field(y, n), m, pc) for n, m in zip(x.a[2], x.a[3:]))
            vs = terms.VARIANTS.get(x.a[0])
            if vs and B.implies(pc, norm(is_variant(y, x.a[1], vs))):
                return all(same_(vfield(y, x.a[1], n), m, pc, d + 1) or note(vfield(y, x.a[1], n), m, pc) for n, m in zip(x.a[2], x.a[3:]))
            return note(a, b, pc)
        if x.op == "tuple" and y.op in ("upd", "fld", "vf", "get", "elem", "index") and x.a:
            return all(same_(field(y, str(i)), m, pc, d + 1) or note(field(y, str(i)), m, pc) for i, m in enumerate(x.a))
    if a.op == "upd" or b.op == "upd":
        ks = {y.a[i] for y in (a, b) if y.op == "upd" for i in range(1, len(y.a), 2)}
        x, y = (z.a[0] if z.op == "upd" else z for z in (a, b))
        if not same_(x, y, pc, d + 1):
            return note(a, b, pc)
        g = lambda z, k: vfield(z, *k.split(".", 1)) if "." in k else field(z, k)
        return all(same_(g(a, k), g(b, k), pc, d + 1) or note(g(a, k), g(b, k), pc) for k in ks)
    for x, y in ((a, b), (b, a)):
        # two untouched options that are both known to be empty
        if x.op in OPAQUE and y.op in OPAQUE and x is not y:
            if B.implies(pc, B.NOT(atom(mk("is", x, "Some")))) and B.implies(pc, B.NOT(atom(mk("is", y, "Some")))):
                return True
    if a.op == b.op and len(a.a) == len(b.a) and a.a:
        if a.op in terms.COMM and same_(a.a[0], b.a[1], pc, d + 1) and same_(a.a[1], b.a[0], pc, d + 1):
            return True
        for x, y in zip(a.a, b.a):
            if isinstance(x, T) and isinstance(y, T):
                if not same_(x, y, pc, d + 1):
                    return note(x, y, pc)
            elif x != y:
                if a.op in ("seq", "any") and isinstance(x, int) and isinstance(y, int) and beq(x, y, TRUE):
                    continue
                return note(a, b, pc)
        return True
    return note(a, b, pc)


def by_order(a, b, pc, n):
    """the comparison, case by case on the order of the operands of a max or min inside"""
    if n > 2:
        return False
    a, b = restrict(normt(a), pc), restrict(normt(b), pc)
    m = inner_minmax(a) or inner_minmax(b)
    if m is None:
        return False
    x, y = m.a
    for p, q in ((x, y), (y, x)):
        g = lt(p, q)  # p < q: max is q, min is p; otherwise the other way round (equal operands are interchangeable)
        if g in (TRUE, FALSE):
            continue
        up, down = (q, p) if m.op == "max" else (p, q)
        if all(B.AND(pc, h) == FALSE or same_(u, v, B.AND(pc, h), 1) or by_order(u, v, B.AND(pc, h), n + 1)
               for h, w in ((g, up), (B.NOT(g), down))
               for u, v in [(flow.subst(a, m, w, {}), flow.subst(b, m, w, {}))]):
            return True
    return False


def inner_minmax(t, seen=None):
    if seen is None:
        seen = set()
    if not isinstance(t, T) or t.id in seen:
        return None
    seen.add(t.id)
    if t.op in ("max", "min") and len(t.a) == 2:
        return t
    if t.op in ("seq", "any", "sum", "acc", "lam", "closure"):
        return None
    for x in t.a:
        r = inner_minmax(x, seen) if isinstance(x, T) else None
        if r is not None:
            return r
    return None


def note(a, b, pc):
    if not LAST:
        LAST.append((a, b, pc))
    return False


build = flow.build


_nt = {}
GUARDED = {"phi": 0, "bool": 0, "seq": 1, "any": 1}


def normt(t):
    """the same term with every guard inside it normalised"""
    r = _nt.get(t.id)
    if r is not None:
        return r
    o = t.op
    if not t.a or o in ("int", "str", "arg", "cfg", "ref", "zst", "const", "fn"):
        r = t
    elif o == "bool":
        r = boolt(norm(t.a[0]))
    elif o == "phi":
        r = mkphi([(norm(g), normt(x)) for g, x in alts(t)])
    else:
        k = GUARDED.get(o)
        a = [normt(x) if isinstance(x, T) else norm(x) if i == k else x for i, x in enumerate(t.a)]
        r = t if all(x is y for x, y in zip(a, t.a)) else build(o, a)
    _nt[t.id] = r
    return r


def inner_guard(t, d=0, seen=None):
    """first guard of a phi nested in t"""
    if seen is None:
        seen = set()
    if not isinstance(t, T) or t.id in seen:
        return None
    seen.add(t.id)
    if t.op == "phi":
        return t.a[0]
    if t.op in ("seq", "any", "sum", "acc", "lam", "closure"):
        return None
    for x in t.a:
        g = inner_guard(x, d + 1, seen) if isinstance(x, T) else None
        if g is not None:
            return g
    return None


def atoms_in(b):
    return [atom_term(v) for v in B.support(b)]


_norm = {}


def norm(b):
    """the same condition with comparisons distributed over guarded values"""
    r = _norm.get(b)
    if r is not None:
        return r
    subst = {}
    for v in B.support(b):
        t = atom_term(v)
        n = norm_atom(t)
        if n is not None:
            subst[v] = n
    r = b if not subst else compose(b, subst)
    _norm[b] = r
    return r


def norm_atom(t):
    n = normt(t) if t.op not in ("any",) else t
    if n.op == "bool":
        return n.a[0]
    g = inner_guard(n)
    if g is None:
        return rebuild_atom(n) if n is not t else None
    x = rebuild_atom(restrict_kids(n, g))
    y = rebuild_atom(restrict_kids(n, B.NOT(g)))
    return B.ite(g, norm(x), norm(y))


def restrict_kids(t, g):
    return mk(t.op, *[restrict(x, g) if isinstance(x, T) else x for x in t.a])


rebuild_atom = flow.rebuild


def compose(b, subst):
    memo = {}

    def go(f):
        if f in (0, 1):
            return f
        r = memo.get(f)
        if r is not None:
            return r
        v, lo, hi = B.nodes[f]
        c = subst.get(v)
        if c is None:
            c = B.var(v)
        r = B.ite(c, go(hi), go(lo))
        memo[f] = r
        return r

    return go(b)


def beq(x, y, pc=TRUE):
    if B.AND(x, pc) == B.AND(y, pc):
        return True
    x, y, pc = norm(x), norm(y), norm(pc)
    if B.AND(x, pc) == B.AND(y, pc):
        return True
    x, y, pc = split_anys(x, y, pc)
    return B.AND(x, pc) == B.AND(y, pc)


def bimp(x, y):
    if B.implies(x, y):
        return True
    x, y = norm(x), norm(y)
    if B.implies(x, y):
        return True
    return B.implies(*split_anys(x, y))


def split_anys(*bs):
    """the conditions with each `some element of the list meets c` as a disjunction over a partition of the elements,
    the coarsest in which every condition on elements of that list is a union of classes"""
    by = {}
    for v in set().union(*[B.support(b) for b in bs]):
        t = atom_term(v)
        if t.op == "any" and isinstance(t.a[1], int):
            by.setdefault(t.a[0], []).append((v, norm(t.a[1])))
    sub = {}
    for src, l in by.items():
        if len(l) < 2:
            continue
        l.sort()
        parts = []
        rest = TRUE
        for _, c in l:
            n = []
            for p in parts:
                n += [q for q in (B.AND(p, c), B.AND(p, B.NOT(c))) if q != FALSE]
            new = B.AND(rest, c)
            if new != FALSE:
                n.append(new)
            rest = B.AND(rest, B.NOT(c))
            parts = n
            if len(parts) > 64:
                break
        if len(parts) <= 64:
            for v, c in l:
                sub[v] = B.OR(*[atom(mk("anyclass", src, p)) for p in parts if B.AND(p, c) != FALSE])
    return [compose(b, sub) for b in bs] if sub else bs


def per_list(e):
    """an effect in a loop over several lists one after the other, as one effect per list"""
    for l in e.loops:
        src, _ = flow.strip_seq(getattr(l, "src", None)) if l.kind != "callback" else (None, 0)
        if src is None or src.op != "concat":
            continue
        out = []
        for p in src.a:
            q, g = flow.strip_seq(p)

            def sub(t):
                return flow.subst(flow.subst(t, elem(src), elem(p), {}), mk("more", src), mk("more", q), {}) if isinstance(t, T) else t
            x = flow.Effect(**{s: getattr(e, s) for s in flow.Effect.__slots__})
            x.args = [sub(a) for a in e.args]
            x.pc = B.AND(sub(boolt(e.pc)).a[0], g)
            x.ret, x.old = sub(e.ret), sub(e.old)
            x.loops = []
            for m in e.loops:
                n = flow.LoopCtx(m.kind)
                n.src = q if m is l else sub(m.src)
                n.order = m.order
                x.loops.append(n)
            out += per_list(x)
        return out
    return [e]


class Summary:
    def __init__(self, fx, f, args=None, init=None):
        self.f = f
        self.fx = fx
        fl = self.fl = flow.Flow(fx)
        self.args = args if args is not None else [mk("arg", i) for i in range(f["nargs"])]
        st = flow.State(TRUE, init or {})
        r = fl.run_fn(f, self.args, st, None)
        if r is None:
            self.st, self.ret = flow.State(FALSE, {}), UNDEF
        else:
            self.st, self.ret = r
        self.effects = [x for e in fl.effects for x in per_list(e)]
        d = f.get("ret_ty") or f["locals"][0][0]
        self.is_result = norm_path(d).startswith(RES)
        if self.is_result:
            self.ok = B.AND(self.st.pc, is_variant(self.ret, "Ok", VARIANTS[RES]))
        else:
            self.ok = self.st.pc
        # no iteration panics
        self.live = B.AND(TRUE, *[B.NOT(p) for p, m, _, ls in fl.panics if ls and not m.startswith("assert ")])
        self.file = f.get("span")

    def final(self, item, *keys, pc=None):
        v = self.st.mem.get(("S", item, tuple(k.id for k in keys)))
        if v is None:
            v = mk("get", item, *keys)
        return restrict(v, self.ok if pc is None else pc)

    def written(self, pc=None):
        """{(item, keys): final value} for cells that may differ from their initial value on success"""
        pc = self.ok if pc is None else pc
        out = {}
        for k, v in self.st.mem.items():
            if k[0] != "S":
                continue
            keys = tuple(terms._all[i] for i in k[2])
            v = restrict(v, pc)
            if v is not restrict(mk("get", k[1], *keys), pc):
                out[(k[1], keys)] = v
        return out
