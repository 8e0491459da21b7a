"""The rule language: terms, conditions and obligations of the .spec files."""
import re

from .terms import *
from . import terms, flow
from .flow import elem, index, length, liftarith

TOK = re.compile(r"\s*(?:(?P<num>\d+)|(?P<id>[A-Za-z_]\w*(?:::\w+)*)|(?P<op>==|!=|<=|>=|=>|[-+*/<>=!&|?.,:(){}\[\]$@~;])|(?P<str>'[^']*'))")


class SpecError(Exception):
    pass


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise SpecError(f"cannot read {s[i:i+30]!r}")
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


EVALS = {}
EXITS = {}
BIN = {"|": 1, "&": 2, "is": 4, "==": 4, "!=": 4, "<": 4, "<=": 4, ">": 4, ">=": 4, "+": 5, "-": 5, "*": 6, "/": 6}


def upd_path(v, path, val):
    """v with the part at the end of a path of fields replaced"""
    k = path[0]
    if len(path) > 1:
        val = upd_path(vfield(v, *k.split(".")) if "." in k else field(v, k), path[1:], val)
    return upd(v, k, val)


class Parser:
    def __init__(self, env, fx, crate, text, base=TRUE):
        self.env, self.fx, self.crate = env, fx, crate
        self.t, self.i, self.text = tokens(text), 0, text
        self.base = base

    def peek(self, n=0):
        return self.t[self.i + n][1] if self.i + n < len(self.t) else None

    def kind(self, n=0):
        return self.t[self.i + n][0] if self.i + n < len(self.t) else None

    def take(self, x=None):
        v = self.peek()
        if v is None or (x is not None and v != x):
            raise SpecError(f"expected {x!r}, found {v!r} in {self.text!r}")
        self.i += 1
        return v

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def done(self):
        return self.i >= len(self.t)

    def term(self):
        return self.expr(0)

    def cond(self):
        return as_bool(self.expr(0))

    def expr(self, p):
        if self.accept("if"):
            c = self.cond()
            self.take("then")
            a = self.expr(0)
            self.take("else")
            b = self.expr(0)
            return mkphi([(c, flow.settle(a, c)), (B.NOT(c), flow.settle(b, B.NOT(c)))])
        if self.accept("!"):
            l = boolt(B.NOT(as_bool(self.expr(4))))
        else:
            l = self.postfix()
        while True:
            o = self.peek()
            if o not in BIN or BIN[o] < p or (self.kind() == "id" and o != "is") or (o == "-" and self.peek(1) == ">"):
                return l
            q = BIN[o]
            if q <= p and p:
                return l
            self.take()
            if o == "is":
                l = boolt(self.isv(l, self.take()))
                continue
            r = self.expr(q)
            if o == "|":
                l = boolt(B.OR(as_bool(l), as_bool(r)))
            elif o == "&":
                l = boolt(B.AND(as_bool(l), as_bool(r)))
            elif o == "==":
                l = boolt(eq(l, r))
            elif o == "!=":
                l = boolt(B.NOT(eq(l, r)))
            elif o == "<":
                l = boolt(lt(l, r))
            elif o == ">":
                l = boolt(lt(r, l))
            elif o == "<=":
                l = boolt(B.NOT(lt(r, l)))
            elif o == ">=":
                l = boolt(B.NOT(lt(l, r)))
            else:
                l = liftarith({"+": "add", "-": "sub", "*": "mul", "/": "div"}[o], l, r)

    def isv(self, v, name):
        if name in ("Some", "None"):
            return is_variant(v, name, VARIANTS[OPT])
        if name in ("Ok", "Err"):
            return is_variant(v, name, VARIANTS[RES])
        if "::" in name:
            en, vn = name.rsplit("::", 1)
            p, vs = self.enum(en)
            return is_variant(v, vn, vs)
        c = {tuple(vs) for p, vs in VARIANTS.items() if name in vs and (p.startswith(self.crate) or p.startswith("std::"))}
        if len(c) != 1:
            raise SpecError(f"ambiguous variant {name}: {c}")
        return is_variant(v, name, list(next(iter(c))))

    def enum(self, en):
        ad = self.adt(en)
        if ad is None:
            raise SpecError("unknown type " + en)
        p, a = ad
        return p, [x["name"] for x in a["variants"]]

    def adt(self, name):
        std = {"Option": OPT, "Result": RES}
        if name in std:
            return None
        c = [(k, v) for k, v in self.fx.adts.items() if k == name or k.endswith("::" + name)]
        own = [x for x in c if x[0].startswith(self.crate + "::")]
        c = own or c
        if not c:
            return None
        c.sort(key=lambda x: len(x[0]))
        return c[0]

    def postfix(self):
        v = self.primary()
        while True:
            if self.accept("?"):
                v = vfield(v, "Some", "0")
            elif self.peek() == ".":
                self.take()
                n = self.take()
                if n == "ok":
                    v = vfield(v, "Ok", "0")
                elif n == "err":
                    v = vfield(v, "Err", "0")
                elif n[0].isupper():
                    self.take(".")
                    v = vfield(v, n, self.take())
                else:
                    v = field(v, n)
            elif self.peek() == "with":
                self.take()
                self.take("{")
                while not self.accept("}"):
                    path = [self.take()]
                    while self.peek() in (".", "?"):
                        if self.accept("?"):
                            path.append("Some.0")
                        else:
                            self.take(".")
                            n = self.take()
                            if path[-1][0].isupper() and "." not in path[-1]:
                                path[-1] += "." + n
                            else:
                                path.append(n)
                    self.take(":")
                    v = upd_path(v, path, self.expr(0))
                    self.accept(",")
            else:
                return v

    def args(self, close=")"):
        out = []
        while not self.accept(close):
            out.append(self.expr(0))
            self.accept(",")
        return out

    def primary(self):
        k, x = self.kind(), self.take()
        if k == "num":
            return int_(int(x))
        if k == "str":
            return mk("str", x[1:-1])
        if x == "(":
            v = self.args()
            if len(v) == 1 and self.t[self.i - 2][1] != ",":
                return v[0]
            return mk("tuple", *v)
        if x == "[":
            return mk("array", *self.args("]"))
        if x == "$":
            return mk("arg", int(self.take()))
        if k != "id":
            raise SpecError(f"unexpected {x!r} in {self.text!r}")
        if x in self.env and not (self.peek() == "(" and not callable(self.env[x])):
            v = self.env[x]
            if callable(v):
                self.take("(")
                return v(self, self.args())
            return v
        nx = self.peek()
        if nx == "[" and "::" not in x:
            self.take()
            return mk("get", x, *self.args("]"))
        if x == "any" and nx == "(":
            self.take()
            s = self.expr(0)
            self.take(":")
            c = self.cond()
            self.take(")")
            return boolt(anyof(s, c))
        if nx == "(":
            self.take()
            if x == "while":
                return self.while_()
            if x == "exitsby":
                w = self.expr(0)
                self.take(":")
                js = []
                while not self.accept(")"):
                    js.append(int(self.take()))
                    self.accept(",")
                return boolt(B.OR(*[flow.any_of(w, EXITS[w.id][j]) for j in js]))
            if x == "eval":
                n = self.take()[1:-1]
                self.accept(",")
                return self.eval_(n, self.args())
            if x == "upto":
                a = self.args()
                return adt("std::ops::Range", None, ("start", "end"), a)
            if x == "cfg":
                n = self.take()
                self.take(")")
                return mk("cfg", n)
            if x == "trunc":
                n = self.take()
                self.take(",")
                return mk("trunc", n, *self.args())
            if x in ("const",):
                n = self.take()[1:-1]
                self.take(")")
                return mk("const", n)
            if x == "argof":
                # argof(call, 'name', 'argument'): an argument of the call, if it is that one
                v = self.expr(0)
                self.take(",")
                n = self.take()[1:-1]
                self.take(",")
                m = self.take()[1:-1]
                self.take(")")
                return terms.vfield(v, n, m)
            if x == "default":
                n = self.take()[1:-1]
                self.take(")")
                return mk("call", "default<" + n + ">")
            if x == "maxvalue":
                n = "" if self.peek() == ")" else self.take()
                self.take(")")
                return mk("maxvalue", n)
            if x == "zst":
                n = self.take()[1:-1]
                self.take(")")
                return mk("zst", n)
            if x == "keys" or x == "entries" or x == "values":
                n = self.take()
                self.accept(",")
                return mk("storage", n, x, *self.args())
            if x == "seq":
                s = self.expr(0)
                self.take(":")
                c = self.cond()
                self.take(",")
                e = self.expr(0)
                self.take(")")
                return flow.mkseq(s, c, e)
            if x == "lam":
                old = dict(self.env)
                ps = []
                while not self.accept(":"):
                    ps.append(self.take())
                for i, n in enumerate(ps):
                    self.env[n] = mk("cb", i)
                e = self.expr(0)
                self.env = old
                self.take(")")
                return mk("lam", e)
            if x == "acc":
                # acc(name = init in source -> step)
                n = self.take()
                self.take("=")
                init = self.expr(0)
                self.take("in")
                src, g = flow.strip_seq(self.expr(0))
                self.take("-")
                self.take(">")
                lv = mk("lvn", init, 0, src)
                old = self.env.get(n)
                self.env[n] = lv
                step = self.expr(0)
                self.env[n] = old
                self.take(")")
                return mk("acc", init, src, lv, mkphi([(g, step), (B.NOT(g), lv)]))
            if x == "sofar":
                # sofar(init in source): what a walk that began with init has made of it when it comes to the current element
                init = self.expr(0)
                self.take("in")
                src = flow.strip_seq(self.expr(0))[0]
                self.take(")")
                return mk("lvn", init, 0, src)
            if x in ("sum", "maxover", "minover"):
                a = self.expr(0)
                self.take(",")
                s = self.expr(0)
                self.take(":")
                c = self.cond()
                self.take(",")
                e = self.expr(0)
                self.take(")")
                return flow.sumover(x, a, s, c, e)
            if x in ("pos", "ins"):
                s = self.expr(0)
                if self.accept(")"):
                    return mk(x, s)
                self.take(":")
                c = self.cond()
                self.take(")")
                return flow.pos_of(s, c, x)
            if x in ("origin", "originval"):
                n = self.take()
                self.take(",")
                o = mk("call", n + "::ensure_origin", self.expr(0))
                self.take(")")
                return boolt(is_variant(o, "Ok", ["Ok", "Err"])) if x == "origin" else vfield(o, "Ok", "0")
            if x == "pick":
                n = self.take()
                self.take(",")
                return mk("pick", n, *self.args())
            if x in ("fits", "exists"):
                n = self.take() if x == "fits" else None
                if n:
                    self.accept(",")
                a = self.args()
                return boolt(atom(mk("fits", n, *a) if n else mk("exists", a[0].a[0], *a[0].a[1:])))
            a = self.args()
            return self.apply(x, a)
        r = self.ctor(x, nx)
        if r is not None:
            return r
        if x == "anything":
            return mk("anything")
        if x == "now":
            return mk("now")
        if x == "true":
            return boolt(1)
        if x == "false":
            return boolt(0)
        if x == "empty":
            return mk("call", "Vec::new")
        if x == "lastix":
            return mk("lastix")
        raise SpecError(f"unknown name {x!r} in {self.text!r}")

    def while_(self):
        """while(n = init, …; n -> next, …; exit; exit; …): a loop without iterator, with the carried values the exits depend on"""
        used, old = {}, dict(self.env)
        names = {}
        while True:
            n = self.take()
            self.take("=")
            v = self.expr(0)
            k = used[v.id] = used.get(v.id, -1) + 1
            names[n] = mk("lvn", v, k)
            if self.accept(";"):
                break
            self.take(",")
        self.env = dict(old)
        self.env.update(names)
        steps = {}
        while True:
            n = self.take()
            self.take("-")
            self.take(">")
            steps[names[n]] = self.expr(0)
            if self.accept(";"):
                break
            self.take(",")
        cs = []
        while True:
            cs.append(self.cond())
            if self.accept(")"):
                break
            self.take(";")
        for c in names.values():
            steps.setdefault(c, c)
        self.env = old
        w = flow.while_term(cs, steps)
        EXITS[w.id] = cs
        return w

    def eval_(self, name, args):
        """the value a function of the crate returns on these arguments"""
        from . import spec
        impl = None
        if " in " in name:
            name, impl = name.split(" in ", 1)
        fs = self.fx.find(self.crate, name, impl)
        if len(fs) != 1:
            raise SpecError(f"{len(fs)} functions {name} in {self.crate}")
        k = (fs[0]["key"],) + tuple(a.id for a in args)
        if k not in EVALS:
            s = spec.Summary(self.fx, fs[0], args)
            EVALS[k] = s.ret
        return EVALS[k]

    def ctor(self, x, nx, a=None):
        if x == "None":
            return NONE
        if "::" in x:
            en, vn = x.rsplit("::", 1)
            ad = self.adt(en)
            if ad is not None and ad[1]["kind"] == "enum":
                p, d = ad
                vi = [y for y in d["variants"] if y["name"] == vn]
                if not vi:
                    raise SpecError(f"{p} has no variant {vn}")
                names = [f[0] for f in vi[0]["fields"]]
                return self.fill(p, vn, names, nx, a)
            STD = {"ArithmeticError", "TokenError", "DispatchError"}
            if en in STD or en.split("::")[-1] in STD:
                return mk("stderr", x, *(a or []))
        else:
            ad = self.adt(x)
            if ad is not None and ad[1]["kind"] == "struct":
                names = [f[0] for f in ad[1]["variants"][0]["fields"]]
                if nx == "{" or a is not None:
                    return self.fill(ad[0], None, names, nx, a)
        return None

    def fill(self, p, vn, names, nx, a):
        vals = {}
        if a is not None:
            vals = {str(i): v for i, v in enumerate(a)}
        elif nx == "{":
            self.take("{")
            while not self.accept("}"):
                n = self.take()
                if self.accept(":"):
                    vals[n] = self.expr(0)
                else:
                    vals[n] = self.env[n]
                self.accept(",")
        if set(vals) != set(names):
            raise SpecError(f"{p}::{vn} has fields {names}, the rule gives {sorted(vals)}")
        return adt(p, vn, names, [vals[n] for n in names])

    def apply(self, x, a):
        S = ["None", "Some"]
        R = ["Ok", "Err"]
        if x == "some":
            return boolt(is_variant(a[0], "Some", S))
        if x == "none":
            return boolt(B.NOT(is_variant(a[0], "Some", S)))
        if x == "isok":
            return boolt(is_variant(a[0], "Ok", R))
        if x == "Some":
            return some(a[0])
        if x == "Ok":
            return ok(a[0] if a else UNIT)
        if x == "Err":
            return err(a[0])
        if x == "len":
            return length(a[0])
        if x == "elem":
            return elem(a[0])
        if x == "at":
            return index(a[0], a[1])
        if x == "exists":
            v = a[0]
            return boolt(atom(mk("exists", v.a[0], *v.a[1:])))
        if x in ("bitand", "bitor", "bitxor"):
            return liftarith(x[3:], a[0], a[1])
        if x in ("shl", "shr", "satpow"):
            return liftarith(x, a[0], a[1])
        if x == "wzero":
            return mk("wzero")
        if x == "wadd":
            from .models import weigh
            return weigh("satadd", a[0], a[1])
        if x in ("satadd", "satsub", "satmul", "absdiff", "min", "max", "cadd", "csub", "cmul", "cdiv", "rem"):
            if x in ("min", "max"):
                return minmax(x, a[0], a[1])
            return liftarith(x, a[0], a[1])
        if x == "fits":
            return boolt(atom(mk("fits", a[0].a[0], *a[1:])))
        if x in ("setidx", "updelem", "extend", "slice", "range", "fromend", "pick", "found", "rev", "maxof", "defaultof", "slotof", "chain",
                 "discr", "within", "itake", "anywith", "bsearch", "bspos", "bsins", "overlay"):
            if x == "setidx":
                return flow.setat(*a)
            if x == "defaultof":
                return mk("defaultof", a[0].a[0])
            if x == "pick":
                return mk("pick", a[0].a[0], *a[1:])
            if x == "rev":
                return flow.mkrev(a[0])
            return mk(x, *a)
        if x == "concat":
            return flow.concat(*a)
        if x == "sortedby":
            return mk("sortedby", *a)
        if x == "after":
            # what a call answers once n calls like it have been made
            return mk("call", *a[1].a, mk("after", a[0].a[0]))
        if x == "distinct":
            return mk("call", "dedup", flow.mksorted(a[0], mk("cb", 0), False))
        if x == "sorted":
            return mk("sorted", *a)
        if x == "take":
            return flow.mkslice(a[0], adt("RangeTo", None, ("end",), (a[1],)))
        if x == "skip":
            return flow.mkslice(a[0], adt("RangeFrom", None, ("start",), (a[1],)))
        if x == "bool":
            return boolt(as_bool(a[0]))
        if x == "test":
            return boolt(atom(a[0]))
        if x == "signed":
            return vfield(mk("call", "ensure_signed", a[0]), "Ok", "0")
        if x == "issigned":
            return boolt(is_variant(mk("call", "ensure_signed", a[0]), "Ok", R))
        if x == "isroot":
            return boolt(is_variant(mk("call", "ensure_root", a[0]), "Ok", R))
        if x == "origin":
            return boolt(is_variant(mk("call", a[0].a[0] + "::ensure_origin", a[1]), "Ok", R))
        if x == "originval":
            return vfield(mk("call", a[0].a[0] + "::ensure_origin", a[1]), "Ok", "0")
        if x in ("closure1",):
            return mk("lam", a[0])
        c = self.ctor(x, "(", a)
        if c is not None:
            return c
        return mk("call", x, *a)


def minmax(op, a, b):
    return liftarith(op, a, b)


def anyof(s, c):
    return flow.any_of(s, c)
