"""Guarded-value dataflow over the resolved MIR.

Every function is analysed once per inlining, block by block in topological order; at merges the
abstract states are joined (values become guarded alternatives, path conditions are disjoined), and
loops are summarised by one generic iteration over havocked loop-carried cells.  Nothing is executed
and no path is enumerated; path conditions are kept canonical as BDDs over value-term atoms."""
import re

from .terms import *
from . import terms
from .facts import short_name, short_ty

MAXDEPTH = 48


class State:
    __slots__ = ("pc", "mem")

    def __init__(self, pc, mem):
        self.pc, self.mem = pc, mem

    def copy(self, pc=None):
        return State(self.pc if pc is None else pc, dict(self.mem))


class LoopCtx:
    n = 0

    def __init__(self, kind):
        self.kind, self.src, self.more, self.it = kind, None, None, None
        self.elemcells = set()
        self.dies = FALSE
        self.opt, self.count = False, None
        LoopCtx.n += 1
        self.uid = LoopCtx.n
        self.order = "fwd"

    def __repr__(self):
        return f"<{self.kind} {show(self.src) if self.src is not None else '?'}>"


class Effect:
    __slots__ = ("kind", "name", "item", "args", "pc", "loops", "site", "ret", "idx", "old", "selfty", "stack", "tyargs", "cpath", "state", "since")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def __repr__(self):
        return f"{self.kind} {self.name} {self.item or ''}({', '.join(show(a) for a in self.args)})"


_MONEY = (re.compile(r"(total_|reducible_|active_|minimum_)?(balance|issuance)$"), re.compile(r"slash|burn|mint|transfer|deposit|withdraw|issue|rescind|settle|set_balance"))
QUERIES = {"Currency": _MONEY, "Fungible": _MONEY,
           "Pallet": (re.compile(r"new_notify_query$"), re.compile(r"new_notify_query$")),
           "ChangeMembers": (re.compile(r"get_prime$"), re.compile(r"change_members|set_members|set_prime"))}
ITER_OPS = {"iter", "itermut", "imap", "ifilter", "ifmap", "ienum", "izip", "irev", "itake", "iskip", "ichain", "iflat", "itakewhile",
            "iskipwhile", "iinspect", "ipeek", "istep", "iopt"}


class Flow:
    def __init__(self, facts, inline=lambda f: True):
        self.fx = facts
        self.inline = inline
        self.effects = []
        self.reads = []  # (cell, effects before it, path condition)
        self.panics = []
        self.zeros = {}
        self.lenof = {}  # the list last asked for each length
        self.mute = 0
        self.loops = []
        self.stack = []
        self.frame_n = 0
        self.itemb, self.pushb = {}, {}  # bounds of stored lists; of lists pushed to
        self.cfg_cache = {}
        self.opaque = {}
        self.inlined = set()
        self.calls = 0
        self.sblocks = 0
        self.snap = False
        from .models import MODELS, model_storage
        self.models = MODELS
        self.model_storage = model_storage

    # ---- cells -----------------------------------------------------------------
    def default(self, key):
        if key[0] == "L":
            return UNDEF
        if key[0] == "C":
            return terms._all[key[1]]
        return mk("get", key[1], *[terms._all[i] for i in key[2]])

    def read_cell(self, st, key):
        v = st.mem.get(key)
        if v is None:
            v = self.default(key)
        return under(v, st.pc)

    def read_path(self, v, path):
        for e in path:
            if e[0] == "f":
                v = field(v, e[1])
            elif e[0] == "vf":
                v = vfield(v, e[1], e[2])
            elif e[0] == "idx":
                v = index(v, e[1])
            elif e[0] == "elem":
                v = elem(v)
            elif e[0] == "rng":
                v = mkslice(v, e[1])
            else:
                v = mk("proj", v, str(e))
        return v

    def write_path(self, v, path, new):
        if not path:
            return new
        e, rest = path[0], path[1:]
        sub = self.write_path(self.read_path(v, (e,)), rest, new) if rest else new
        if e[0] == "f":
            return upd(v, e[1], sub)
        if e[0] == "vf":
            return upd(v, e[1] + "." + e[2], sub)
        if e[0] == "idx":
            if v.op == "array" and e[1].op == "int" and e[1].a[0] < len(v.a):
                return mk("array", *[sub if i == e[1].a[0] else x for i, x in enumerate(v.a)])
            return setat(v, e[1], sub)
        if e[0] == "elem":
            return liftmap(v, lambda t: mk("updelem", t, sub))
        if e[0] == "rng":
            return liftmap(v, lambda t: overlay(t, e[1], sub))
        return mk("setproj", v, str(e), sub)

    def targets(self, st, v):
        """the (guard, cell, path) places a reference value may denote"""
        out = []
        for g, t in alts(v):
            if B.AND(g, st.pc) == FALSE:
                continue
            if t.op == "ref":
                out.append((g, t.a[0], t.a[1]))
            elif t.op == "undef":
                continue
            elif t.op == "box":
                out.append((g, ("C", t.a[0].id), ()))
            else:
                out.append((g, ("C", t.id), ()))
        return out

    def read_ref(self, st, v):
        """value behind a reference (references to unknown memory are transparent)"""
        ps = []
        for g, c, p in self.targets(st, v):
            ps.append((g, self.read_path(self.read_cell(st, c), p)))
        if len(ps) == 1:
            return under(ps[0][1], st.pc)
        return under(mkphi(ps), st.pc) if ps else UNDEF

    def write_ref(self, st, v, new):
        tg = self.targets(st, v)
        for g, c, p in tg:
            old = self.read_cell(st, c)
            nv = self.write_path(old, p, new)
            if len(tg) > 1:
                nv = mkphi([(g, nv), (B.NOT(g), old)])
            st.mem[c] = nv

    def deep(self, st, v, d=0):
        """replace references by the values they denote"""
        if d > 6:
            return v
        if v.op == "ref":
            return self.deep(st, self.read_ref(st, v), d + 1)
        if v.op == "phi":
            return mkphi([(g, self.deep(st, t, d + 1)) for g, t in alts(v)])
        if v.op in ("adt",):
            return mk("adt", *v.a[:3], *[self.deep(st, x, d + 1) for x in v.a[3:]])
        if v.op in ("tuple", "array"):
            return mk(v.op, *[self.deep(st, x, d + 1) for x in v.a])
        return v

    # ---- places and operands ----------------------------------------------------
    def place(self, st, fr, pj):
        """-> list of (guard, cell, path)"""
        cur = [(TRUE, ("L", fr, pj[0]), ())]
        pend = None
        for e in pj[1]:
            if e == "*":
                nxt = []
                for g, c, p in cur:
                    v = under(self.read_path(self.read_cell(st, c), p), st.pc)
                    for g2, c2, p2 in self.targets(st, v):
                        gg = B.AND(g, g2)
                        if gg != FALSE:
                            nxt.append((gg, c2, p2))
                cur = nxt
                continue
            if "v" in e:
                pend = e["v"]
                continue
            if "f" in e:
                s = ("vf", pend, e["f"]) if pend is not None else ("f", e["f"])
                pend = None
            elif "i" in e:
                s = ("idx", self.read_cell(st, ("L", fr, e["i"])))
            elif "ci" in e:
                s = ("idx", int_(e["ci"]) if not e["end"] else mk("fromend", int_(e["ci"])))
            elif "ss" in e:
                s = ("rng", mk("range", int_(e["ss"][0]), int_(e["ss"][1])))
            else:
                s = ("x", str(e))
            cur = [(g, c, p + (s,)) for g, c, p in cur]
        return cur

    def read_place(self, st, fr, pj):
        ps = [(g, self.read_path(self.read_cell(st, c), p)) for g, c, p in self.place(st, fr, pj)]
        if len(ps) == 1:
            return under(ps[0][1], st.pc)
        return under(mkphi(ps), st.pc) if ps else UNDEF

    def write_place(self, st, fr, pj, v):
        pl = self.place(st, fr, pj)
        for g, c, p in pl:
            if not p and len(pl) == 1:
                st.mem[c] = v
                continue
            old = self.read_cell(st, c)
            nv = self.write_path(old, p, v)
            if len(pl) > 1:
                nv = mkphi([(g, nv), (B.NOT(g), old)])
            st.mem[c] = nv

    def operand(self, st, fr, o):
        if "cp" in o:
            return self.read_place(st, fr, o["cp"])
        if "mv" in o:
            return self.read_place(st, fr, o["mv"])
        c = o["c"]
        return self.const(st, c)

    def const(self, st, c):
        if "int" in c:
            ty = c["ty"]
            if ty == "bool":
                return boolt(1 if c["int"] else 0)
            return int_(c["int"])
        if "str" in c:
            return mk("str", c["str"])
        if "fn" in c:
            return mk("fn", FnRef.get(c["fn"]))
        if "closure" in c:
            return mk("closure", c["closure"])
        if "promoted" in c:
            f = self.fx.fns.get(c["promoted"])
            if f is None:
                return mk("const", c["promoted"])
            self.mute += 1
            try:
                st2 = st.copy()
                r = self.run_fn(f, [], st2, None)
                if r is None:
                    return mk("const", "promoted")
                return self.deep(r[0], r[1])
            finally:
                self.mute -= 1
        if c["ty"] == "()":
            return UNIT
        f = self.fx.fns.get(c.get("body"))
        if f is not None:
            self.mute += 1
            try:
                st2 = st.copy()
                r = self.run_fn(f, [], st2, None)
                if r is not None:
                    return self.deep(r[0], r[1])
            finally:
                self.mute -= 1
        if "path" in c:
            p = short_name(c["path"])
            a = [short_ty(x) for x in c.get("args", [])]
            return mk("const", p + ("<" + ",".join(a) + ">" if a else ""))
        if c.get("zst"):
            base = norm_path(c["ty"].split("<")[0])
            return mk("zst", short_ty(c["ty"]))
        pp = c.get("pp", "?")
        if pp.startswith("{transmute(0x0000000000000000): std::option::Option<"):
            return NONE
        base = norm_path(c["ty"].split("<")[0])
        if base in terms.VARIANTS:
            v = pp.split("::")[-1].split("(")[0].split("<")[0]
            if v in terms.VARIANTS[base]:
                ad = self.fx.adts.get(base)
                vi = [x for x in ad["variants"] if x["name"] == v][0] if ad else None
                if vi is not None and not vi["fields"]:
                    return adt(base, v, (), ())
        return mk("const", pp)

    # ---- rvalues ------------------------------------------------------------------
    def rvalue(self, st, fr, r, site):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            pl = self.place(st, fr, r[1])
            return mkphi([(g, mk("ref", c, p)) for g, c, p in pl]) if pl else UNDEF
        if k == "adt":
            p = norm_path(r[1])
            vals = [self.operand(st, fr, o) for o in r[4]]
            return adt(p, r[2], r[3], vals)
        if k == "tuple":
            return mk("tuple", *[self.operand(st, fr, o) for o in r[1]])
        if k == "array":
            return mk("array", *[self.operand(st, fr, o) for o in r[1]])
        if k == "closure":
            return mk("closure", r[1], *[self.operand(st, fr, o) for o in r[2]])
        if k == "cast":
            v = self.operand(st, fr, r[2])
            if r[1] in ("IntToInt",):
                if v.op == "bool" or len(r) > 4 and "bool" in (r[3], r[4]):
                    b = as_bool(v)
                    return mkphi([(b, int_(1)), (B.NOT(b), int_(0))])
                if v.op == "discr":
                    return v
                return liftmap(v, lambda x: narrow(x, r[4], r[3]))
            return v
        if k == "discr":
            v = self.read_place(st, fr, r[1])
            vs = tuple((a, b) for a, b in (r[2] or []))
            return mk("discr", v, vs)
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            if len(r) > 4 and r[4] == "bool":
                a, b = boolt(as_bool(a)), boolt(as_bool(b))
            if r[1] in ("Shr", "ShrUnchecked") and len(r) > 4 and WIDTH.get(r[4]) and b is int_(WIDTH[r[4]] - 1) and r[4][0] == "u":
                c = eq(liftarith("and", a, int_(1 << (WIDTH[r[4]] - 1))), int_(0))  # the top bit
                return mkphi([(c, int_(0)), (B.NOT(c), int_(1))])
            return self.binop(r[1], a, b)
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if v.op == "bool":
                    return boolt(B.NOT(v.a[0]))
                w = WIDTH.get(r[3])
                if w and r[3][0] == "u":
                    return liftmap(v, lambda x: int_((1 << w) - 1 - x.a[0]) if x.op == "int" else mk("not", x))
                if r[3] != "bool":
                    return mk("not", v)
                b = as_bool(v)
                return boolt(B.NOT(b))
            if r[1] == "PtrMetadata":
                return length(self.deep(st, v))
            return mk(r[1].lower(), v)
        if k == "repeat":
            return mk("repeat", self.operand(st, fr, r[1]), r[2])
        return mk("rv", str(r)[:80])

    def binop(self, op, a, b):
        o = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "Shl": "shl", "Shr": "shr",
             "BitAnd": "and", "BitOr": "or", "BitXor": "xor"}.get(op.replace("Unchecked", ""))
        if a.op == "discr" or b.op == "discr":
            r = self.cmp_discr(op, a, b)
            if r is not None:
                return r
        if op == "Eq":
            return boolt(eq(a, b))
        if op == "Ne":
            return boolt(B.NOT(eq(a, b)))
        if op == "Lt":
            return boolt(lt(a, b))
        if op == "Gt":
            return boolt(lt(b, a))
        if op == "Le":
            return boolt(B.NOT(lt(b, a)))
        if op == "Ge":
            return boolt(B.NOT(lt(a, b)))
        if op.endswith("WithOverflow"):
            return mk("tuple", liftarith(op[0:3].lower(), a, b), boolt(atom(mk("overflow", op[0:3].lower(), a, b))))
        if op == "Cmp":
            return cmp3(a, b)
        if o:
            return liftarith(o, a, b)
        return mk("bin" + op, a, b)

    def cmp_discr(self, op, a, b):
        if a.op == "discr" and b.op == "discr" and op in ("Eq", "Ne"):
            vs = [n for _, n in a.a[1]]
            g = B.OR(*[B.AND(is_variant(a.a[0], n, vs), is_variant(b.a[0], n, vs)) for n in vs])
            return boolt(g if op == "Eq" else B.NOT(g))
        if a.op == "int":
            a, b = b, a
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        if a.op == "discr" and b.op == "int":
            vs = a.a[1]
            names = [n for _, n in vs]
            fn = {"Eq": lambda x, y: x == y, "Ne": lambda x, y: x != y, "Lt": lambda x, y: x < y, "Gt": lambda x, y: x > y,
                  "Le": lambda x, y: x <= y, "Ge": lambda x, y: x >= y}.get(op)
            if fn:
                return boolt(B.OR(*[is_variant(a.a[0], n, names) for d, n in vs if fn(d, b.a[0])]))
        return None

    # ---- joins ------------------------------------------------------------------
    def join(self, sts):
        sts = [s for s in sts if s is not None and s.pc != FALSE]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        pc = B.OR(*[s.pc for s in sts])
        # make guards disjoint (they normally are: paths are disjoint)
        gs = []
        seen = FALSE
        for s in sts:
            g = B.AND(s.pc, B.NOT(seen))
            gs.append(B.constrain(g, pc))
            seen = B.OR(seen, s.pc)
        keys = {}
        for s in sts:
            for k in s.mem:
                keys[k] = 1
        mem = {}
        for k in keys:
            vs = []
            first = None
            same = True
            for s in sts:
                v = s.mem.get(k)
                if v is None:
                    v = self.default(k)
                vs.append(v)
                if first is None:
                    first = v
                elif v is not first:
                    same = False
            if same:
                mem[k] = first
            else:
                mem[k] = mkphi(list(zip(gs, vs)))
        return State(pc, mem)

    # ---- control-flow structure ---------------------------------------------------
    def succs(self, f, b):
        blk = f["blocks"][b]
        if blk is None:
            return []
        t = blk["t"]
        k = t["k"]
        if k in ("goto", "assert"):
            return [t["t"]]
        if k == "switch":
            return [x[1] for x in t["ts"]] + [t["o"]]
        if k == "call":
            return [t["t"]] if t["t"] is not None else []
        return []

    def sccs(self, f, region, header):
        key = (f["key"], region, header)
        r = self.cfg_cache.get(key)
        if r is not None:
            return r
        idx, low, onst, stack, out, n = {}, {}, set(), [], [], [0]

        def strong(v0):
            work = [(v0, iter(self.succs(f, v0)))]
            idx[v0] = low[v0] = n[0]
            n[0] += 1
            stack.append(v0)
            onst.add(v0)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in region or w == header:
                        continue
                    if w not in idx:
                        idx[w] = low[w] = n[0]
                        n[0] += 1
                        stack.append(w)
                        onst.add(w)
                        work.append((w, iter(self.succs(f, w))))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = stack.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(frozenset(comp))

        for v in sorted(region):
            if v not in idx:
                strong(v)
        out.reverse()
        self.cfg_cache[key] = out
        return out

    # ---- execution of a region ------------------------------------------------------
    def run_region(self, f, fr, region, entry, st, header):
        """-> list of (target block | 'ret' | 'back', state, source block)"""
        pend = {entry: [st]}
        outs = []
        for comp in self.sccs(f, region, header):
            if len(comp) == 1:
                b = next(iter(comp))
                selfloop = b in self.succs(f, b) and b != header
                if not selfloop:
                    if b not in pend:
                        continue
                    s = self.join(pend.pop(b))
                    if s is None:
                        continue
                    for t, s2 in self.run_block(f, fr, b, s):
                        if s2.pc == FALSE:
                            continue
                        if t == "ret":
                            outs.append(("ret", s2, b))
                        elif t == header:
                            outs.append(("back", s2, b))
                        elif t in region:
                            pend.setdefault(t, []).append(s2)
                        else:
                            outs.append((t, s2, b))
                    continue
            heads = [b for b in comp if b in pend]
            if not heads:
                continue
            h = heads[0]
            s = self.join([x for b in heads for x in pend.pop(b)])
            if s is None:
                continue
            for t, s2, src in self.run_loop(f, fr, comp, h, s):
                if s2.pc == FALSE:
                    continue
                if t == "ret":
                    outs.append(("ret", s2, src))
                elif t == header:
                    outs.append(("back", s2, src))
                elif t in region:
                    pend.setdefault(t, []).append(s2)
                else:
                    outs.append((t, s2, src))
        return outs

    def run_loop(self, f, fr, comp, h, st0):
        ctx = LoopCtx("loop")

        def body(s):
            o = self.run_region(f, fr, comp, h, s, h)
            return [x[1] for x in o if x[0] == "back"], [(x[0], x[1], x[2]) for x in o if x[0] != "back"]

        r = self.loop_fix(ctx, st0, body)
        if r is None:
            x = self.once(st0, body)
            if x is not None:
                return x
            ctx.opt = None
            r = self.loop_fix(ctx, st0, body)
        backs, exits, hdr = r
        # natural exits: the iterator is exhausted, or (no iterator) the canonical exit of the loop
        M = ctx.more
        nat, early = [], []
        if M is not None:
            for e in exits:
                (nat if B.AND(e[1].pc, M) == FALSE else early).append(e)
        if not nat and exits:
            if ctx.src is None:
                nat = [e for e in exits if ctx.exitc.get(id(e[1])) == ctx.last]
            else:
                m = min(e[2] for e in exits)
                nat = [e for e in exits if e[2] == m]
            early = [e for e in exits if e not in nat]
        res = []
        st0 = st0.copy(B.AND(st0.pc, B.NOT(ctx.dies)))
        base = st0.pc if M is None else B.AND(st0.pc, bare(ctx.src) if ctx.src is not None else M)
        E = FALSE
        srct = ctx.src if ctx.src is not None else ctx.while_
        es = []
        for t, s, b in early:
            c = B.constrain(s.pc, base) if ctx.src is not None else ctx.exitc[id(s)]
            es.append([any_of(srct, c), t, s, b, c])
        cs, taken = [x[-1] for x in es], []
        if ctx.src is not None and len(es) > 1:
            # which of the exits is taken is decided by the first element that takes any of them
            first_exits(srct, es)
        for g, t, s, b, c in es:
            s2 = s.copy(B.AND(st0.pc, g, B.NOT(E)))
            taken.append(B.AND(g, B.NOT(E)))
            E = B.OR(E, g)
            if ctx.src is not None:
                leave_at(self, s2, None, srct, c)
            res.append((t, s2, b))
        if ctx.src is not None:
            self.until_left(ctx, cs, taken)
        # all natural exits leave with the condition that held on entry
        ns = {}
        for t, s, b in nat:
            ns.setdefault(t, []).append((s, b))
        if len(ns) == 1:
            for t, l in ns.items():
                j = self.join([x[0] for x in l])
                res.append((t, j.copy(B.AND(st0.pc, B.NOT(E))), l[0][1]))
        else:
            for t, l in ns.items():
                for s, b in l:
                    res.append((t, s.copy(B.AND(s.pc, B.NOT(E))), b))
        for t, s, b in res:
            self.close_loop(ctx, s)
        return res

    def until_left(self, ctx, cs, taken):
        """where some element leaves the loop, only what comes before that is done. cs: the conditions under which an element
        leaves it, taken: when the loop is left that way"""
        es = self.effects[ctx.first:]
        if not es or not cs:
            return
        # (a condition on the carried values alone holds on from where it first does, as nothing changes them then)
        own = [mk(o, b) for b in bases(ctx.src) for o in ("elem", "pos")]
        stays = [not any(mentions(boolt(c), x) for x in own) for c in cs]
        here = atom(mk("before", ctx.src, boolt(B.OR(FALSE, *cs))))
        for e in es:
            L = B.OR(FALSE, *[t for c, t, s in zip(cs, taken, stays) if not (s and B.AND(e.pc, c) == FALSE)])
            e.pc = B.AND(e.pc, B.OR(B.NOT(L), here))

    def once(self, st0, body):
        """the exits of a loop over an optional value or a few given ones: its body is run for each there is"""
        n, p = len(self.effects), len(self.panics)
        exits, j = [], st0.copy()
        for _ in range(FEW + 1):
            backs, more = body(j)
            exits = exits + more
            j = self.join([b for b in backs if b.pc != FALSE])
            if j is None:
                return exits
        del self.effects[n:], self.panics[p:]
        return None

    def loop_fix(self, ctx, st0, body):
        """runs body on a generic iteration; returns (back states, exits, header state)"""
        mods = {}
        self.mute += 1
        self.loops.append(ctx)
        try:
            for _ in range(6):
                hs = self.havoc(ctx, st0, mods)
                n0 = len(self.effects)
                backs, exits = body(hs.copy())
                if ctx.opt and ctx.src is None:
                    return None
                new = False
                for b in backs:
                    for k, v in b.mem.items():
                        if k in mods or ctx.count and k == ctx.count[0]:
                            continue
                        if v is not (st0.mem.get(k) or self.default(k)):
                            if k[0] == "L" and k not in st0.mem:
                                continue
                            if k[0] == "S" and ctx.src is not None and per_elem(k, ctx.src):
                                # keyed by the element: a different cell in every iteration
                                ctx.elemcells.add(k)
                                continue
                            mods[k] = len(mods)
                            new = True
                if not new:
                    break
        finally:
            self.mute -= 1
            self.loops.pop()
        if ctx.src is None and ctx.count is None:
            ctx.count = self.counter(ctx, st0, mods, backs, exits)
            if ctx.count:
                ctx.src = ctx.count[1]
                ctx.more = more_of(ctx.src)
                return self.loop_fix(ctx, st0, body)
        self.loops.append(ctx)
        n1, p1 = len(self.effects), len(self.panics)
        ctx.first = n1
        try:
            hs = self.havoc(ctx, st0, mods)
            backs, exits = body(hs.copy())
        finally:
            self.loops.pop()
        bj = self.join([b.copy() for b in backs])
        ctx.mods = {}
        ren = None
        out = FALSE
        if ctx.src is not None and ctx.more is not None:
            out = B.OR(FALSE, *[e[1].pc for e in exits if B.AND(e[1].pc, ctx.more) != FALSE])
        if ctx.src is None:
            ren = self.while_loop(ctx, st0, mods, bj, exits)
        for k, i in mods.items():
            init = st0.mem.get(k) or self.default(k)
            step = (bj.mem.get(k) or self.default(k)) if bj is not None else init
            lv = mk("lv", ctx.uid, i)
            if bj is not None and B.AND(bj.pc, eq(step, int_(0))) == FALSE:
                # zero only where it starts at zero
                self.zeros[lv] = B.AND(st0.pc, eq(init, int_(0)))
            base = st0.pc if ctx.more is None else B.AND(st0.pc, bare(ctx.src) if ctx.src is not None else ctx.more, B.NOT(out))
            if ren is not None:
                step = ren(step)
                x = self.accum(ctx, init, ren(lv), step, ren_b(base))
                if x.op == "acc" and any(ren(lv) is n.a[0] for n in ctx.while_.a[1:]):
                    x = at_end(ctx.while_, ren(lv))
                ctx.mods[k] = (lv, x)
            else:
                if ctx.src is not None and ctx.more is not None:
                    # an element that a filter drops leaves the value as it is
                    step = mkphi([(ctx.more, step), (B.NOT(ctx.more), lv)])
                ctx.mods[k] = (lv, self.accum(ctx, init, lv, step, base))
        if ctx.src is not None and ctx.more is not None:
            self.name_carried(ctx, st0, mods, bj, [e[1] for e in exits], n1)
            for p in self.panics[p1:]:
                p[0] = self.renamed(ctx, boolt(p[0])).a[0]
            base0 = B.AND(st0.pc, bare(ctx.src))
            ctx.dies = B.OR(FALSE, *[any_of(ctx.src, B.constrain(p[0], base0)) for p in self.panics[p1:] if p[3][-1:] == [ctx] and not p[1].startswith("assert ")])
            if ctx.ren:
                ctx.mods = {k: (self.renamed(ctx, a), self.renamed(ctx, b)) for k, (a, b) in ctx.mods.items()}
                exits = [e[:2] + tuple(self.renamed(ctx, x) for x in e[2:]) for e in exits]
                hs = self.renamed_state(ctx, hs)
        return backs, exits, hs

    def name_carried(self, ctx, st0, mods, bj, exits, n1):
        """values carried from one iteration to the next, named by what they start from; those that count the iterations
        or collect one element in each are expressed by the position in the source"""
        used = {}
        ctx.ren = []
        visits = mkseq(ctx.src, ctx.more) if ctx.more != FALSE else ctx.src
        # an earlier walk over the same collection has carried values of its own
        if ctx.count:
            k, v = ctx.count
            ctx.ren.append((mk("ctr", v), mk("pos", visits), {}))
            ctx.mods[k] = (mk("pos", visits), length(v))
        met = [under(bj.mem[k], bj.pc) for k in mods if bj is not None and isinstance(bj.mem.get(k), T)]
        for k, i in mods.items():
            init = under(st0.mem.get(k) or self.default(k), st0.pc)
            n = used[init.id] = used.get(init.id, -1) + 1
            lv = mk("lv", ctx.uid, i)
            step = bj.mem.get(k) if bj is not None else None
            ts = [t for _, t in alts(under(step, bj.pc))] if step is not None else []
            if ts and ts[0].op in ("add", "satadd") and len(ts) == 1 and lv in ts[0].a and int_(1) in ts[0].a:
                ctx.ren.append((lv, liftarith("add", init, mk("pos", visits)), {}))
                continue
            if ts and is_empty_coll(init) and all(t is lv or t.op == "call" and t.a[0] == "push" and t.a[1] is lv for t in ts):
                b = self.bound_of(strip_seq(ctx.src)[0])
                if b is not None and b == self.pushb.get(lv.id):
                    # at most one element for each of a list that is bounded in the same way
                    n = bound_term(b)
                    ctx.ren[:0] = [(mk("fits", "push", *t.a[1:]) if n is None else mk("lt", mk("len", lv), n), boolt(TRUE), {}) for t in ts if t is not lv]
            new = mk("lvn", init, n, strip_seq(ctx.src)[0])
            seen = {}
            while any(mentions(t, new, seen.setdefault(new.id, set())) for t in met):
                n = used[init.id] = n + 1
                new = mk("lvn", init, n, strip_seq(ctx.src)[0])
            if ts and all(t.op == "call" and t.a[0] in ("push", "try_push") and t.a[1] is lv for t in ts):
                ctx.ren.append((mk("len", lv), liftarith("add", length(init), mk("pos", visits)), {}))
            ctx.ren.append((lv, new, {}))
        if not ctx.ren:
            return
        for st in exits + ([bj] if bj is not None else []):
            x = self.renamed_state(ctx, st)
            st.pc, st.mem = x.pc, x.mem
        for e in self.effects[n1:]:
            e.args = [self.renamed(ctx, a) for a in e.args]
            e.pc = self.renamed(ctx, boolt(e.pc)).a[0]
            e.ret, e.old = self.renamed(ctx, e.ret), self.renamed(ctx, e.old)
            for l in e.loops:
                if l is not ctx and isinstance(getattr(l, "src", None), T):
                    l.src = self.renamed(ctx, l.src)

    def bound_of(self, src):
        root, p = path_of(src)
        return self.itemb.get(root.a[0]) if root.op == "get" and p in ("", "Some.0", "Some.0.") else None

    def renamed(self, ctx, t):
        for old, new, memo in ctx.ren:
            if isinstance(t, T):
                t = subst(t, old, new, memo)
        return t

    def renamed_state(self, ctx, st):
        return State(self.renamed(ctx, boolt(st.pc)).a[0], {k: self.renamed(ctx, v) if isinstance(v, T) else v for k, v in st.mem.items()})

    def while_loop(self, ctx, st0, mods, bj, exits):
        """canonical description of a loop without iterator: its exits and the steps of the carried values, which are named
        by their initial values"""
        names, used = {}, {}
        for k, i in mods.items():
            init = under(st0.mem.get(k) or self.default(k), st0.pc)
            n = used[init.id] = used.get(init.id, -1) + 1
            names[i] = mk("lvn", init, n)
        memo = {}

        def ren(t):
            for i, n in names.items():
                t = subst(t, mk("lv", ctx.uid, i), n, memo.setdefault(i, {}))
            return t

        def renb(b):
            return ren(boolt(b)).a[0]

        ctx.exitc = {}
        cs = set()
        for e in exits:
            c = renb(B.constrain(e[1].pc, st0.pc))
            ctx.exitc[id(e[1])] = c
            cs.add(c)
        cs = sorted(cs, key=lambda c: exit_key(c))
        ctx.last = cs[-1] if cs else FALSE
        steps = {}
        for k, i in mods.items():
            init = under(st0.mem.get(k) or self.default(k), st0.pc)
            st = (bj.mem.get(k) or self.default(k)) if bj is not None else init
            steps[names[i]] = ren(under(st, B.constrain(bj.pc, st0.pc)) if bj is not None else st)
        ctx.while_ = while_term(cs, steps)
        return ren

    def counter(self, ctx, st0, mods, backs, exits):
        """(cell, list) when a loop counts through the positions of a list"""
        backs = [b for b in backs if b.pc != FALSE]
        for k, i in mods.items():
            if not backs or (st0.mem.get(k) or self.default(k)) is not int_(0):
                continue
            lv = mk("lv", ctx.uid, i)
            if any(b.mem.get(k) not in (arith("add", lv, int_(1)), arith("satadd", lv, int_(1))) for b in backs):
                continue
            for v in self.lenof.values():
                if has_op(v, ("lv",)) and any(mentions(v, mk("lv", ctx.uid, j)) for j in mods.values()):
                    continue
                g = lt(lv, length(v))
                if g not in (FALSE, TRUE) and all(B.implies(b.pc, g) for b in backs) and any(B.AND(e[1].pc, g) == FALSE for e in exits):
                    return k, v
        return None

    def havoc(self, ctx, st0, mods):
        s = st0.copy()
        if ctx.count:
            s.mem[ctx.count[0]] = mk("ctr", ctx.count[1])
        for k, i in mods.items():
            s.mem[k] = mk("lv", ctx.uid, i)
        return s

    def accum(self, ctx, init, lv, step, base):
        """closed form of a loop-carried value, when it is a sum or a sequence"""
        src = ctx.src if ctx.src is not None else ctx.while_
        if src.op == "seq":
            src, g = strip_seq(src)
            step = mkphi([(g, step), (B.NOT(g), lv)])
        step = under(step, base)
        als = [(B.constrain(g, base) if base != FALSE else g, t) for g, t in alts(step)]
        upds = [(g, t) for g, t in als if t is not lv]
        upds = [pick_larger(g, t, lv) for g, t in upds]
        ops = {t.op for _, t in upds}
        if len(upds) > 1 and len(ops) == 1 and ops <= {"max", "min", "add", "satadd"} and all(
                len(t.a) == 2 and (t.a[0] is lv) != (t.a[1] is lv) for _, t in upds):
            es = [(g, t.a[1] if t.a[0] is lv else t.a[0]) for g, t in upds]
            if not any(mentions(e, lv) for _, e in es):
                g = B.OR(*[g for g, _ in es])
                o = ops.pop()
                return sumover({"max": "maxover", "min": "minover"}.get(o, "sum"), init, src, g, mkphi([(B.constrain(h, g), e) for h, e in es]))
        if init is NONE and src.op != "while":
            x = best_of(src, lv, mkphi(als), base)
            if x is not None:
                return x
        if len(upds) == 1 and src.op != "while":
            g, t = upds[0]
            if not has_op(t, ("lv", "lvn", "acc")) and not mentions(t, elem(src)) and not has_op(boolt(g), ("lv", "lvn", "acc")):
                # the same value whichever element sets it
                h = any_of(src, g)
                return mkphi([(h, t), (B.NOT(h), init)])
        if len(upds) == 1:
            g, t = upds[0]
            if t.op in ("add", "satadd") and lv in t.a and t.a[0] is not t.a[1]:
                e = t.a[1] if t.a[0] is lv else t.a[0]
                if not mentions(e, lv):
                    return sumover("sum", init, src, g, e)
            if t.op in ("max", "min") and lv in t.a and t.a[0] is not t.a[1]:
                e = t.a[1] if t.a[0] is lv else t.a[0]
                if not mentions(e, lv):
                    return sumover(t.op + "over", init, src, g, e)
            if t.op == "call" and t.a[0] in ("push", "try_push") and t.a[1] is lv and not mentions(t.a[2], lv):
                if is_empty_coll(init):
                    return mkseq(src, g, t.a[2])
                return concat(init, mkseq(src, g, t.a[2]))
        return mk("acc", init, src, lv, step)

    def close_loop(self, ctx, s, natural=True):
        if natural:
            for k in ctx.elemcells:
                s.mem.pop(k, None)
        if ctx.src is None and ctx.mods:
            lvs = [(lv, closed) for lv, closed in ctx.mods.values()]
            for k, v in s.mem.items():
                if isinstance(v, T) and v.op not in ("ref", "lv", "int") and any(mentions(v, lv) for lv, _ in lvs):
                    for lv, closed in lvs:
                        v = subst(v, lv, closed, {})
                    s.mem[k] = v
        for k, (lv, closed) in ctx.mods.items():
            v = s.mem.get(k)
            if v is lv:
                s.mem[k] = closed
            elif v is not None and v.op == "phi" and any(t is lv for _, t in alts(v)):
                s.mem[k] = mkphi([(g, closed if t is lv else t) for g, t in alts(v)])

    # ---- combinator loops: body(st, elem) -> list of ('back'|'exit', state, value) ------
    def iterate(self, it, st, fnbody, kind="iter"):
        """generic iteration over iterator term `it`.
        fnbody(st, elem) -> (continue_state | None, [(exit_state, value)])
        returns (natural_state, [(early_state, value)])"""
        ctx = LoopCtx(kind)

        def body(s):
            ctx.src = self.src_of(it, s)
            g, e, s1 = self.iter_elem(it, s)
            ctx.more = g
            s1 = s1.copy(B.AND(s1.pc, g))
            if s1.pc == FALSE:
                return [], []
            cont, ex = fnbody(s1, e)
            return ([cont] if cont is not None else []), [("x", x[0], x[1]) for x in ex]

        if self.dead(it):
            return st, []
        if kind not in ("collect", "retain") and (optional(it) or given(it)):
            early = []
            for one in given(it) or [it]:
                g, e, s1 = self.iter_elem(one, st)
                rest = [st.copy(B.AND(st.pc, B.NOT(g)))]
                s1 = s1.copy(B.AND(s1.pc, g))
                if s1.pc != FALSE:
                    cont, ex = fnbody(s1, e)
                    early += ex
                    rest += [cont] if cont is not None else []
                rest = [s for s in rest if s.pc != FALSE]
                st = self.join(rest) or st.copy(FALSE)
                if st.pc == FALSE:
                    break
            return st, [x for x in early if x[0].pc != FALSE]
        backs, exits, hdr = self.loop_fix(ctx, st, body)
        base = B.AND(st.pc, bare(ctx.src)) if ctx.more is not None else st.pc
        st = st.copy(B.AND(st.pc, B.NOT(ctx.dies)))
        E = FALSE
        early = []
        es = []
        for _, s, v in exits:
            if s.pc == FALSE:
                continue
            c = B.constrain(s.pc, base)
            es.append([any_of(ctx.src, c), s, v, c])
        cs, taken = [x[-1] for x in es], []
        if len(es) > 1:
            first_exits(ctx.src, es)
        for g, s, v, c in es:
            s2 = s.copy(B.AND(st.pc, g, B.NOT(E)))
            taken.append(B.AND(g, B.NOT(E)))
            E = B.OR(E, g)
            self.close_loop(ctx, s2)
            early.append((s2, leave_at(self, s2, v, ctx.src, c)))
        self.until_left(ctx, cs, taken)
        nat = hdr.copy(B.AND(st.pc, B.NOT(E)))
        self.close_loop(ctx, nat)
        self.lastctx = ctx
        return nat, early

    def dead(self, it):
        return False

    def src_of(self, it, st):
        """the collection an iterator walks; one walked by mutable reference while the walk changes it stays a place"""
        src = iter_src(it)
        if src.op == "ref":
            v = self.read_ref(st, src)
            if v.op not in ("lv", "lvn", "phi", "undef"):
                return v
        return src

    def iter_elem(self, it, st):
        """-> (guard that an element is produced, element, state)"""
        if it.op == "phi":
            xs = alts(it)
            # same element structure only when single alternative matters
            g0, e0, ps = FALSE, [], []
            sts = []
            for g, t in xs:
                s = st.copy(B.AND(st.pc, g))
                if s.pc == FALSE:
                    continue
                mg, me, s2 = self.iter_elem(t, s)
                g0 = B.OR(g0, B.AND(g, mg))
                ps.append((B.AND(g, mg), me))
                sts.append(s2)
            return g0, mkphi(ps), self.join(sts) or st
        o = it.op
        if o == "iter":
            src = it.a[0]
            return self.src_elem(src, st)
        if o == "iopt":
            v = under(it.a[0], st.pc)
            return is_variant(v, "Some", ["None", "Some"]), vfield(v, "Some", "0"), st
        if o == "itermut":
            ref = it.a[0]
            v = self.read_ref(st, ref)
            pairs = [(g, mk("ref", c, p + (("elem",),))) for g, c, p in self.targets(st, ref)]
            return atom(mk("more", v)), mkphi(pairs), st
        if o == "imap":
            g, e, s = self.iter_elem(it.a[0], st)
            s1 = s.copy(B.AND(s.pc, g))
            s2, r = self.call_value(it.a[1], [e], s1)
            if s2 is None:
                return FALSE, UNDEF, s
            return g, r, self.rejoin(s, g, s2)
        if o == "ifilter":
            g, e, s = self.iter_elem(it.a[0], st)
            s1 = s.copy(B.AND(s.pc, g))
            s2, r = self.call_value(it.a[1], [e], s1)
            if s2 is None:
                return FALSE, UNDEF, s
            return B.AND(g, as_bool(r)), e, self.rejoin(s, g, s2)
        if o == "ifmap":
            g, e, s = self.iter_elem(it.a[0], st)
            s1 = s.copy(B.AND(s.pc, g))
            s2, r = self.call_value(it.a[1], [e], s1)
            if s2 is None:
                return FALSE, UNDEF, s
            k = is_variant(r, "Some", ["None", "Some"])
            return B.AND(g, k), vfield(r, "Some", "0"), self.rejoin(s, g, s2)
        if o == "iinspect":
            g, e, s = self.iter_elem(it.a[0], st)
            s2, r = self.call_value(it.a[1], [e], s.copy(B.AND(s.pc, g)))
            return g, e, self.rejoin(s, g, s2) if s2 else s
        if o in ("itakewhile", "iskipwhile"):
            g, e, s = self.iter_elem(it.a[0], st)
            s2, r = self.call_value(it.a[1], [e], s.copy(B.AND(s.pc, g)))
            a = B.constrain(as_bool(r), g) if s2 and g != FALSE else FALSE
            w = atom(mk("within", o, mkseq(iter_src(it.a[0]), g), boolt(a)))
            return (B.AND(g, a, w) if o == "itakewhile" else B.AND(g, w)), e, self.rejoin(s, g, s2) if s2 else s
        if o == "ienum":
            g, e, s = self.iter_elem(it.a[0], st)
            return g, mk("tuple", mk("pos", iter_src(it.a[0])), e), s
        if o == "izip":
            g, e, s = self.iter_elem(it.a[0], st)
            g2, e2, s = self.iter_elem(it.a[1], s)
            return B.AND(g, g2), mk("tuple", e, e2), s
        if o == "irev":
            if self.loops:
                self.loops[-1].order = "rev"
            return self.iter_elem(it.a[0], st)
        if o in ("itake", "iskip", "istep"):
            g, e, s = self.iter_elem(it.a[0], st)
            return B.AND(g, atom(mk("within", o, mkseq(iter_src(it.a[0]), g), it.a[1]))), e, s
        if o == "ipeek":
            return self.iter_elem(it.a[0], st)
        if o == "iflat":
            g, e, s = self.iter_elem(it.a[0], st)
            s1 = s.copy(B.AND(s.pc, g))
            if it.a[1] is not UNIT:
                s2, r = self.call_value(it.a[1], [e], s1)
                if s2 is None:
                    return FALSE, UNDEF, s
                s = self.rejoin(s, g, s2)
            else:
                r = e
            g2, e2, s = self.iter_elem(to_iter(self, s, r), s)
            return B.AND(g, g2), e2, s
        # unknown iterator value
        return self.src_elem(it, st)

    def rejoin(self, s, g, s2):
        """state after effects that happened only under guard g"""
        rest = s.copy(B.AND(s.pc, B.NOT(g)))
        return self.join([rest, s2]) or s

    def src_elem(self, src, st):
        src = under(src, st.pc)
        if src.op == "phi":
            sel = alts(src)
            g = B.OR(*[B.AND(a, self.src_elem(t, st)[0]) for a, t in sel])
            e = mkphi([(a, self.src_elem(t, st)[1]) for a, t in sel])
            return g, e, st
        if src.op == "seq":
            return B.AND(atom(mk("more", src.a[0])), src.a[1]), src.a[2], st
        if src.op in ("adt",) and src.a[0] == OPT:
            if src.a[1] == "Some":
                return TRUE, src.a[3], st
            return FALSE, UNDEF, st
        if src.op == "array" and len(src.a) == 0:
            return FALSE, UNDEF, st
        if src.op == "call" and src.a[0] in ("Vec::new", "empty"):
            return FALSE, UNDEF, st
        if src.op in ("upd",) and False:
            pass
        return atom(mk("more", src)), elem(src), st

    # ---- blocks -------------------------------------------------------------------
    def run_block(self, f, fr, b, st):
        """-> [(target, state)]"""
        self.sblocks += 1
        blk = f["blocks"][b]
        if blk is None:
            return []
        st = st.copy()
        for pj, rv, sp in blk["s"]:
            if rv[0] == "setdiscr":
                for g, c, p in self.place(st, fr, pj):
                    pass
                continue
            v = self.rvalue(st, fr, rv, sp)
            self.write_place(st, fr, pj, v)
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "switch":
            return self.run_switch(f, fr, t, st)
        if k == "assert":
            if "Overflow" not in t["m"]:
                c = as_bool(self.operand(st, fr, t["c"]))
                bad = B.NOT(c) if t["e"] else c
                self.panic(st, bad, "assert " + t["m"], t["sp"])
            return [(t["t"], st)]
        if k == "call":
            return self.run_call(f, fr, t, st)
        return []

    def panic(self, st, cond, msg, sp):
        if self.mute:
            return
        pc = B.AND(st.pc, cond)
        if pc != FALSE:
            self.panics.append([pc, msg, self.site(sp), list(self.loops)])

    def site(self, sp):
        return (sp, tuple(self.stack))

    def run_switch(self, f, fr, t, st):
        v = self.operand(st, fr, t["d"])
        outs = []
        rest = TRUE
        if v.op == "discr":
            x, vs = v.a
            names = [n for _, n in vs]
            for val, tb in t["ts"]:
                nm = [n for d, n in vs if d == val]
                if not nm:
                    continue
                g = is_variant(x, nm[0], names)
                outs.append((tb, g))
                rest = B.AND(rest, B.NOT(g))
            outs.append((t["o"], rest))
        elif t["dty"] == "bool":
            c = as_bool(v)
            for val, tb in t["ts"]:
                g = c if val else B.NOT(c)
                outs.append((tb, g))
                rest = B.AND(rest, B.NOT(g))
            outs.append((t["o"], rest))
        else:
            for val, tb in t["ts"]:
                g = B.AND(rest, eq(v, int_(val)))
                outs.append((tb, g))
                rest = B.AND(rest, B.NOT(g))
            outs.append((t["o"], rest))
        # an unreachable default carries no state
        res = []
        for tb, g in outs:
            blk = f["blocks"][tb]
            if blk is not None and blk["t"]["k"] == "unreach" and not blk["s"]:
                continue
            pc = B.AND(st.pc, g)
            if pc != FALSE:
                res.append((tb, State(pc, dict(st.mem))))
        return res

    # ---- calls ---------------------------------------------------------------------
    def run_call(self, f, fr, t, st):
        args = [self.operand(st, fr, a) for a in t["a"]]
        fj = t["f"]
        self.calls += 1
        if "dyn" in fj:
            fv = self.operand(st, fr, fj["dyn"])
            st2, r = self.call_value(fv, args, st)
        else:
            st2, r = self.call(fj, args, t.get("aty") or [], t.get("dty", ""), st, t["sp"])
        if st2 is None:
            return []
        if t["t"] is None:
            # diverging
            self.panic(st2, TRUE, short_name(fj.get("path", "?")), t["sp"])
            return []
        st2 = st2.copy()
        self.write_place(st2, fr, t["d"], r)
        return [(t["t"], st2)]

    def call(self, fj, args, aty, dty, st, sp):
        """-> (state, return value); state None when the call never returns"""
        if "ctor" in fj:
            p, v = fj["ctor"]
            return st, adt(norm_path(p), v, [str(i) for i in range(len(args))], args)
        path = fj["path"]
        name = short_name(path)
        self.cur = (fj, aty, dty, sp)
        if "_GeneratedPrefixForStorage" in (fj["args"][0] if fj.get("args") else "") or "_GeneratedPrefixForStorage" in fj.get("self", ""):
            r = self.model_storage(self, name, fj, args, st, sp)
            if r is not None:
                return r
        m = self.models.get(name) or self.models.get("*::" + name.split("::")[-1])
        if m is not None:
            r = m(self, name, fj, args, aty, dty, st, sp)
            if r is not None:
                return r
        inst = fj.get("inst")
        if inst is not None:
            f = self.fx.fns.get(inst)
            if f is not None and len(self.stack) < MAXDEPTH and all(x[0] != inst for x in self.stack) and self.inline(f):
                r = self.run_fn(f, args, st, sp)
                if r is None:
                    return None, UNDEF
                return r
        return self.opaque_call(name, fj, args, aty, dty, st, sp)

    def call_name(self, name, fj):
        if fj.get("trait") and "self" in fj:
            s = fj["self"]
            s2 = s.lstrip("&").replace("mut ", "")
            if s2.startswith("<") or re.match(r"^[A-Z]\w*$", s2):
                return short_ty(s2) + "::" + name.split("::")[-1]
        return name

    def opaque_call(self, name, fj, args, aty, dty, st, sp):
        name = self.call_name(name, fj)
        st = st.copy()
        vals = []
        for a in args:
            v = self.deep(st, a)
            if v.op == "closure" or (v.op == "fn"):
                st, v = self.lam(v, name, st)
            vals.append(v)
        grp, _, meth = name.partition("::")
        q = QUERIES.get(grp)
        if q and q[0].match(meth):
            # what a query answers depends on what was done before
            n = sum(1 for e in self.effects if e.kind == "call" and e.name.startswith(grp + "::") and q[1].match(e.name[len(grp) + 2:]) and B.AND(e.pc, st.pc) != FALSE)
            if n:
                vals = vals + [mk("after", n)]
        r = mk("call", name, *vals)
        if q and vals and vals[-1].op == "after":
            vals = vals[:-1]
        for i, (a, ty) in enumerate(zip(args, aty)):
            if ty.startswith("&mut") and any(x.op == "ref" for _, x in alts(a)):
                self.write_ref(st, a, mk("mutby", name, i, *vals))
        self.opaque[name] = self.opaque.get(name, 0) + 1
        self.effect("call", name, None, vals, st, sp, ret=r, fj=fj)
        if dty == "bool":
            r = boolt(atom(r))
        elif dty == "()":
            r = UNIT
        elif dty == "!":
            return st, UNDEF
        return st, r

    def lam(self, v, name, st):
        """canonical term for a callback handed to unknown code; its effects are recorded once"""
        if v.op == "fn":
            return st, mk("fnref", FnRef.name(v.a[0]))
        f = self.fx.fns.get(v.a[0])
        if f is None:
            return st, mk("lam", v.a[0])
        n = f["nargs"] - 1
        ps = [mk("cb", i) for i in range(n)]
        ctx = LoopCtx("callback")
        ctx.src = mk("str", name)
        out = {}

        def body(s):
            s2, r = self.call_value(v, ps, s)
            out["r"] = r if s2 is not None else UNDEF
            out["s"] = s2
            return ([s2] if s2 is not None else []), []

        backs, _, hdr = self.loop_fix(ctx, st, body)
        nat = hdr.copy(st.pc)
        r = out.get("r", UNDEF)
        if out.get("s") is not None:
            r = self.deep(out["s"], r)
        self.close_loop(ctx, nat)
        return nat, mk("lam", r)

    def effect(self, kind, name, item, vals, st, sp, ret=None, fj=None, old=None, since=None):
        if self.mute:
            return
        st2 = st.copy() if self.snap else None
        self.effects.append(Effect(kind=kind, name=name, item=item, args=vals, pc=st.pc, loops=list(self.loops), site=sp,
                                   stack=tuple(x[1] for x in self.stack), ret=ret, idx=len(self.effects), old=old,
                                   selfty=(fj or {}).get("self"), tyargs=(fj or {}).get("args"), cpath=(fj or {}).get("path"), state=st2, since=since))

    def call_value(self, fv, args, st):
        """call a closure or function value"""
        if fv.op == "phi":
            sts, vals = [], []
            for g, t in alts(fv):
                s = st.copy(B.AND(st.pc, g))
                if s.pc == FALSE:
                    continue
                s2, r = self.call_value(t, args, s)
                if s2 is not None:
                    sts.append(s2)
                    vals.append((g, r))
            j = self.join(sts)
            return j, mkphi(vals)
        if fv.op == "ref":
            return self.call_value(self.read_ref(st, fv), args, st)
        if fv.op == "closure":
            f = self.fx.fns.get(fv.a[0])
            if f is None or any(x[0] == fv.a[0] for x in self.stack):
                return st, mk("call", "closure?", *args)
            selfty = f["locals"][1][0]
            if selfty.startswith("&"):
                st = st.copy()
                self.frame_n += 1
                key = ("L", self.frame_n, -1)
                st.mem[key] = fv
                a0 = mk("ref", key, ())
            else:
                a0 = fv
            r = self.run_fn(f, [a0] + list(args), st, None)
            return r if r is not None else (None, UNDEF)
        if fv.op == "fn":
            fj = FnRef.tab[fv.a[0]]
            return self.call(fj, list(args), [""] * len(args), "", st, None)
        return st, mk("call", "apply", fv, *[self.deep(st, a) for a in args])

    def run_fn(self, f, args, st, sp):
        """inline f; -> (state, value) or None if it never returns"""
        self.frame_n += 1
        fr = self.frame_n
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[("L", fr, i + 1)] = a
        self.inlined.add(f["path"])
        w = WATCH.get((f["crate"], f["path"].split("::")[-1]))
        if w is not None and self.stack:
            self.effect("enter", f["path"].split("::")[-1], None,
                        [self.deep(st, a) for a in args] + [under(self.read_cell(st, ("S", i, ())), st.pc) for i in w], st, sp)
        self.stack.append((f["key"], (f["path"], tuple(sp) if sp else None)))
        try:
            region = f.get("_all")
            if region is None:
                region = f["_all"] = frozenset(i for i, b in enumerate(f["blocks"]) if b is not None)
            outs = self.run_region(f, fr, region, 0, st, None)
        finally:
            self.stack.pop()
        j = self.join([s for t, s, _ in outs if t == "ret"])
        if j is None:
            return None
        r = j.mem.get(("L", fr, 0), UNIT)
        if r is UNDEF:
            r = UNIT
        r = under(r, j.pc)
        mem = {k: v for k, v in j.mem.items() if not (k[0] == "L" and k[1] == fr)}
        # references into the dead frame survive only for promoted constants
        if any(t.op == "ref" and t.a[0][0] == "L" and t.a[0][1] == fr for _, t in alts(r)) or r.op in ("adt", "tuple"):
            r = self.detach(j, r, fr)
        return State(j.pc, mem), r

    def detach(self, st, r, fr, d=0):
        if d > 6:
            return r
        if r.op == "ref":
            if r.a[0][0] == "L" and r.a[0][1] == fr:
                return self.detach(st, self.read_ref(st, r), fr, d + 1)
            return r
        if r.op == "phi":
            return mkphi([(g, self.detach(st, t, fr, d + 1)) for g, t in alts(r)])
        if r.op == "adt":
            return mk("adt", *r.a[:3], *[self.detach(st, x, fr, d + 1) for x in r.a[3:]])
        if r.op == "tuple":
            return mk("tuple", *[self.detach(st, x, fr, d + 1) for x in r.a])
        return r


class FnRef:
    tab = []
    ix = {}

    @classmethod
    def get(cls, fj):
        k = (fj.get("path"), fj.get("inst"), tuple(fj.get("args", [])))
        i = cls.ix.get(k)
        if i is None:
            i = len(cls.tab)
            cls.tab.append(fj)
            cls.ix[k] = i
        return i

    @classmethod
    def name(cls, i):
        return short_name(cls.tab[i]["path"])


def loop_invs(src, c, n=6):
    """atoms of c that cannot change from one element of src to the next"""
    es = bases(src)
    out = []
    for v in sorted(B.support(c)):
        t = atom_term(v)
        if not any(mentions(t, mk("elem", e)) or mentions(t, mk("more", e)) for e in es) and not has_op(t, ("lv", "pos", "ins")):
            out.append(v)
    return out[:n]


_primes = {}


def primes(c, limit=24):
    """all prime implicants of c as sets of (atom, sign); None when there are too many"""
    if c in (0, 1):
        return frozenset() if c == 0 else frozenset([frozenset()])
    r = _primes.get(c, 0)
    if r != 0:
        return r
    v, lo, hi = B.nodes[c]
    both, a, b = primes(B.AND(lo, hi), limit), primes(lo, limit), primes(hi, limit)
    if both is None or a is None or b is None:
        r = None
    else:
        r = both | {q | {(v, False)} for q in a - both} | {q | {(v, True)} for q in b - both}
        if len(r) > limit:
            r = None
    _primes[c] = r
    return r


def by_invs(src, c, f):
    """[(guard, f(c'))] with the loop-invariant part of c moved into the guard; c' != FALSE"""
    if c == FALSE:
        return []
    vs = loop_invs(src, c)
    if not vs:
        return [(TRUE, f(c))]
    v = vs[0]
    x = B.var(v)
    return ([(B.AND(x, g), t) for g, t in by_invs(src, B.cofactor(c, v, True), f)]
            + [(B.AND(B.NOT(x), g), t) for g, t in by_invs(src, B.cofactor(c, v, False), f)])


def bare(src):
    """there is another element, conditions of filters aside"""
    if src.op == "phi":
        return B.OR(*[B.AND(g, bare(t)) for g, t in alts(src)])
    if src.op == "seq":
        return bare(src.a[0])
    if src.op == "zip":
        return B.AND(bare(src.a[0]), bare(src.a[1]))
    return atom(mk("more", src))


def mkseq(src, g, e=None):
    """the elements of src visited under g, each as e"""
    if src.op == "phi":
        return mkphi([(h, mkseq(t, B.constrain(g, h) if g != FALSE else g, None if e is None else under(e, h))) for h, t in alts(src)])
    src, h = strip_seq(src)
    g = B.AND(g, h)
    if is_empty_coll(src) or g == FALSE:
        return EMPTY
    if src.op == "adt" and src.a[0] == OPT:
        if src.a[1] != "Some":
            return EMPTY
        x, el, memo = src.a[3], elem(src), {}
        g = subst_b(g, el, x, memo)
        e = x if e is None else subst(e, el, x, memo)
        return mkphi([(g, mk("array", e)), (B.NOT(g), EMPTY)])
    if src.op == "array" and g == TRUE and e is not None and not positional(e, src):
        return mk("array", *[subst(e, elem(src), x, {}) for x in src.a])
    if src.op == "concat":
        el = elem(src)
        e = el if e is None else e
        b = bare(src)
        g = B.constrain(g, b)
        if not any(positional(x, src) for x in (e, boolt(g))):
            return concat(*[mkseq(p, subst_b(g, el, elem(p), {}), subst(e, el, elem(p), {})) for p in src.a])
    b = bare(src)
    g = B.constrain(g, b) if b not in (TRUE, FALSE) and g != FALSE else g
    el = elem(src)
    e = el if e is None else under(e, g)
    if g == TRUE and e is el:
        return src
    return mk("seq", src, g, e)


def past(src, c):
    """some position of src lies at or beyond n: src is longer than n"""
    vs = list(B.support(c)) if c not in (0, 1) else []
    if len(vs) == 1:
        t = atom_term(vs[0])
        if t.op == "lt" and t.a[0] is mk("pos", src) and c != B.var(vs[0]) and not mentions(t.a[1], elem(src)) and not mentions(t.a[1], t.a[0]):
            return lt(t.a[1], length(src))
        # positions run through every number below the length
        if t.op == "eq" and c == B.var(vs[0]):
            for x, n in (t.a, t.a[::-1]):
                if x is mk("pos", src) and not mentions(n, elem(src)) and not mentions(n, x):
                    return lt(n, length(src))
    return None


def none_counted(y):
    """a count is zero when there is nothing to count"""
    if y.op == "sum" and y.a[0] is int_(0) and y.a[3].op == "int" and y.a[3].a[0] > 0:
        return B.NOT(any_of(y.a[1], y.a[2].a[0]))
    return None


terms.NONE_COUNTED = none_counted


def positional(t, src):
    return mentions(t, mk("pos", src)) or has_op(t, ("within",))


EMPTY = mk("call", "Vec::new")


def concat(*parts):
    """one list after the other"""
    out = []
    for i, p in enumerate(parts):
        if is_empty_coll(p):
            continue
        if p.op == "phi":
            return mkphi([(g, concat(*out, t, *parts[i + 1:])) for g, t in alts(p)])
        out += list(p.a) if p.op == "concat" else [p]
    return EMPTY if not out else out[0] if len(out) == 1 else mk("concat", *out)


def pick_larger(g, t, lv):
    """t replaces lv where g holds, g being `h and lv < t`: lv becomes max(lv, t) where h holds (the mirrored form for min)"""
    if t.op in ("max", "min") or mentions(t, lv):
        return g, t
    for op, c in (("max", lt(lv, t)), ("max", B.NOT(lt(t, lv))), ("min", lt(t, lv)), ("min", B.NOT(lt(lv, t)))):
        if c in (TRUE, FALSE) or len(B.support(c)) != 1 or not B.implies(g, c):
            continue
        h = B.exists(g, B.support(c))
        if B.AND(h, c) == g:
            return h, liftarith(op, lv, t)
    return g, t


def sumover(op, init, src, g, e):
    """init combined with e of every element of src visited under g"""
    src, h = strip_seq(src)
    g = B.AND(g, h)
    if g == FALSE or is_empty_coll(src):
        return init
    e = under(e, g)
    if src.op in PERM and not positional(e, src) and not positional(boolt(g), src):
        el, en = elem(src), elem(src.a[0])
        return sumover(op, init, src.a[0], subst_b(g, el, en, {}), subst(e, el, en, {}))
    if src.op == "concat":
        el = elem(src)
        if not positional(e, src) and not positional(boolt(g), src):
            for p in src.a:
                init = sumover(op, init, p, subst_b(g, el, elem(p), {}), subst(e, el, elem(p), {}))
            return init
    if src.op == "array" and len(src.a) <= FEW and not positional(e, src) and not positional(boolt(g), src):
        # the few values, written out
        el = elem(src)
        for x in src.a:
            init = combine(op, init, subst(e, el, x, {}), subst_b(g, el, x, {}))
        return init
    if op == "sum" and g == TRUE and e is int_(1) and src.op not in ("while",):
        # counting every element of a list is asking for its length
        return liftarith("add", init, length(src))
    return mk(op, init, src, boolt(g), e)


def combine(op, init, x, g):
    """one more value for a running maximum, minimum or sum"""
    if init.op == op and op != "sum" and not mentions(x, elem(init.a[1])):
        # the order in which a maximum is taken does not matter
        return sumover(op, combine(op, init.a[0], x, g), init.a[1], init.a[2].a[0], init.a[3])
    o = {"maxover": "max", "minover": "min"}.get(op, "add")
    return mkphi([(g, liftarith(o, init, x)), (B.NOT(g), init)])


PERM = ("rev", "sorted")


def mkrev(v):
    if v.op == "phi":
        return mkphi([(g, mkrev(t)) for g, t in alts(v)])
    if v.op == "rev":
        return v.a[0]
    if v.op == "seq" and not positional(v.a[2], v.a[0]) and not positional(boolt(v.a[1]), v.a[0]):
        r = mkrev(v.a[0])
        a, b = elem(v.a[0]), elem(r)
        return mkseq(r, subst_b(v.a[1], a, b, {}), subst(v.a[2], a, b, {}))
    return mk("rev", v)


def overlay(v, r, sub):
    """v with the part r replaced"""
    x = mkslice(v, r)
    if sub.op == "call" and sub.a[0] == "copy_from_slice" and sub.a[1] is x:
        if x is v:
            return sub.a[2]
        if x.op == "slice" and x.a[0] is v and x.a[1].op == "range":
            return mk("overlay", v, x.a[1].a[0], sub.a[2])
    return mk("setslice", v, r, sub)


def mkslice(v, r):
    """elements lo..hi of v; the ends are clamped, so min(len, x) and x are the same end"""
    if v.op == "phi":
        return mkphi([(g, mkslice(t, r)) for g, t in alts(v)])

    def clamp(x):
        if x is not None and x.op == "min" and length(v) in x.a:
            return x.a[1] if x.a[0] is length(v) else x.a[0]
        return x
    lo, hi = int_(0), None
    if r.op == "adt":
        f = dict(zip(r.a[2], r.a[3:]))
        if "RangeInclusive" in r.a[0] or "RangeToInclusive" in r.a[0]:
            return mk("slice", v, r)
        lo, hi = f.get("start", lo), f.get("end")
    elif r.op == "range" and len(r.a) == 2:
        lo, hi = r.a
    elif r.op == "range" and len(r.a) == 1:
        lo = r.a[0]
    else:
        return mk("slice", v, r)
    lo, hi = clamp(lo), clamp(hi)
    if lo is int_(0) and (hi is None or hi is length(v)):
        return v
    if v.op == "seq" and v.a[1] == TRUE and not positional(v.a[2], v.a[0]):
        x = mkslice(v.a[0], r)
        return mkseq(x, TRUE, subst(v.a[2], elem(v.a[0]), elem(x), {}))
    if v.op == "seq" and v.a[2] is not elem(v.a[0]) and not positional(v.a[2], v.a[0]):
        x = mkslice(mkseq(v.a[0], v.a[1]), r)
        return mkseq(x, TRUE, subst(v.a[2], elem(v.a[0]), elem(x), {}))
    return mk("slice", v, mk("range", lo, hi) if hi is not None else mk("range", lo))


def sort_key(r):
    """the key a comparison of cb(0) with cb(1) orders by: (key as a function of cb(0), descending)"""
    a, b = mk("cb", 0), mk("cb", 1)
    for v in (B.support(alts(r)[0][0]) if r.op == "phi" else []):
        t = atom_term(v)
        if t.op == "lt":
            for x, y in (t.a, t.a[::-1]):
                if mentions(x, a) and not mentions(x, b) and subst(x, a, b, {}) is y:
                    if r is cmp3(x, y):
                        return x, False
                    if r is cmp3(y, x):
                        return x, True
    return None


WATCH = {}  # (crate, function) -> storage values of interest: calls to it are recorded as effects
SORTED = {}  # storage item -> [(path to the list, path to the key in an element)] kept in ascending order: declared by the rules


def compared(r, e):
    """the key a comparator gives for an element e of an ascending list"""
    for v in (B.support(alts(r)[0][0]) if r.op == "phi" else []):
        t = atom_term(v)
        if t.op in ("lt", "eq"):
            for x, y in (t.a, t.a[::-1]):
                if mentions(x, e) and not mentions(y, e):
                    return x if r is cmp3(x, y) else None
    return None


def path_of(t):
    p = []
    while t.op in ("fld", "vf"):
        p.append(t.a[1] if t.op == "fld" else t.a[1] + "." + t.a[2])
        t = t.a[0]
    return t, ".".join(reversed(p))


def is_sorted(v, k, e):
    """v is ascending by the key k of its element e; lists of unknown origin count as sorted"""
    o = v.op
    again = lambda x: is_sorted(x, subst(k, e, elem(x), {}), elem(x))
    if o == "phi":
        return all(again(t) for _, t in alts(v))
    if o == "sorted":
        return v.a[1].op == "lam" and v.a[1].a[0] is subst(k, e, mk("cb", 0), {})
    if o == "array":
        return len(v.a) <= 1
    if o in ("sortedby", "rev", "concat", "storage"):
        return False
    if o == "slice":
        return again(v.a[0])
    if o == "seq":
        return v.a[2] is e and again(v.a[0]) or is_sorted(v.a[0], k, elem(v.a[0]))
    if o == "setidx":
        return again(v.a[0])
    if o == "call" and v.a[0] in ("remove", "pop", "truncate"):
        return again(v.a[1])
    if o == "call" and v.a[0] == "insert":
        return v.a[2].op == "ins" and again(v.a[1])
    if o == "call" and v.a[0] in ("push", "swap_remove"):
        return False
    if o in ("get", "fld", "vf", "upd"):
        root, p = path_of(v)
        while root.op in ("upd",):
            root, p2 = path_of(root.a[0])
        if root.op == "get":
            t, q = path_of(k)
            return t is e and (p.replace("Some.0.", ""), q) in SORTED.get(root.a[0], ())
    return True


def mksorted(v, r, two):
    """v sorted by the key r(cb 0), or by the comparison r(cb 0, cb 1)"""
    if two:
        k = sort_key(r)
        if k is None:
            return mk("sortedby", v, mk("lam", r))
        if k[1]:
            return mk("sorted", v, mk("desc", k[0]))
        r = k[0]
    if v.op == "sorted" and v.a[1] is mk("lam", r):
        return v
    return mk("sorted", v, mk("lam", r))


def truth(c):
    """the one atom that c is"""
    v = list(B.support(c))
    return atom_term(v[0]) if len(v) == 1 and B.var(v[0]) == c else None


def any_of(src, c):
    """some element of src satisfies c"""
    if src.op == "seq":
        return any_of(src.a[0], B.AND(src.a[1], c))
    if src.op == "phi":
        return B.OR(*[B.AND(g, any_of(s, B.constrain(c, g))) for g, s in alts(src)])
    if is_empty_coll(src) or c == FALSE:
        return FALSE
    if src.op == "concat" and not positional(boolt(c), src):
        return B.OR(*[any_of(p, subst_b(c, elem(src), elem(p), {})) for p in src.a])
    if src.op == "array" and len(src.a) <= FEW and not positional(boolt(c), src):
        return B.OR(*[subst_b(c, elem(src), x, {}) for x in src.a])
    if src.op == "call" and src.a[0] == "slice::windows" and src.a[2] is int_(2):
        # some neighbours are out of order
        t = truth(c)
        if t is not None and t.op == "lt":
            w, x = elem(src), mk("cb", 0)
            after, before = (subst(t.a[k], index(w, int_(1 - k)), x, {}) for k in (0, 1))
            if after is before and not mentions(after, w):
                return B.NOT(eq(src.a[1], mksorted(src.a[1], after, False)))
    if src.op in PERM and not positional(boolt(c), src):
        return any_of(src.a[0], subst_b(c, elem(src), elem(src.a[0]), {}))
    p = past(src, c)
    if p is not None:
        return p
    if src.op == "while":
        return left_with(src, c)

    def f(c):
        if c == TRUE:
            return B.NOT(eq(length(src), int_(0)))
        # some element satisfies a or b: some element satisfies a, or some element satisfies b
        ps = primes(c)
        if ps is not None and len(ps) > 1:
            return B.OR(*[f1(B.AND(*[B.var(v) if p else B.NOT(B.var(v)) for v, p in sorted(q)])) for q in ps])
        return f1(c)

    def f1(c):
        p = past(src, c)
        if p is not None:
            return p
        # a pair from two lists: whichever list is looked at first
        e = elem(src)
        inner = [v for v in B.support(c) if atom_term(v).op == "any" and B.implies(c, B.var(v)) and mentions(atom_term(v), e)
                 and isinstance(atom_term(v).a[1], int) and not mentions(atom_term(v).a[0], e) and atom_term(v).a[0] is not src]
        if len(inner) == 1:
            t = atom_term(inner[0])
            if show(t.a[0]) < show(src) and not mentions(src, elem(t.a[0])):
                return any_of(t.a[0], any_of(src, B.AND(B.constrain(c, B.var(inner[0])), t.a[1])))
        return atom(mk("any", src, c))
    return B.OR(*[B.AND(g, h) for g, h in by_invs(src, c, f)])


def pos_of(src, c, op="pos"):
    """index of the (first) element of src that satisfies c"""
    if src.op == "phi":
        return mkphi([(g, pos_of(s, B.constrain(c, g), op)) for g, s in alts(src)])
    if is_empty_coll(src) or (c == TRUE and op == "pos" and src.op != "seq"):
        return int_(0)
    while op == "pos" and src.op == "seq" and src.a[1] == TRUE:
        # a list mapped in place: the same position in what it was made from
        src = src.a[0]
    return mkphi(by_invs(src, c, lambda c: mk(op, src, boolt(c))))


def bases(src):
    out = [src]
    while src.op in ("seq", "rev", "part", "mapfld", "slice", "sorted"):
        src = src.a[0]
        out.append(src)
    return out


def has_op(t, ops, seen=None):
    if seen is None:
        seen = set()
    if not isinstance(t, T) or t.id in seen:
        return False
    seen.add(t.id)
    if t.op in ops:
        return True
    if any(isinstance(a, T) and has_op(a, ops, seen) for a in t.a):
        return True
    if t.op == "phi":
        return any(has_op(atom_term(v), ops, seen) for g, _ in alts(t) for v in B.support(g))
    k = GPOS.get(t.op)
    if k is not None and t.a[k] not in (0, 1):
        return any(has_op(atom_term(v), ops, seen) for v in B.support(t.a[k]))
    return False


spec_arith = {"add", "sub", "mul", "div", "rem", "satadd", "satsub", "satmul", "cadd", "csub", "cmul", "cdiv", "min", "max", "and", "or", "xor",
              "shl", "shr"}


def build(o, a):
    """the term o(a) through the simplifying constructors"""
    if o == "phi":
        return mkphi([(a[i], a[i + 1]) for i in range(0, len(a), 2)])
    if o == "fld":
        return field(a[0], a[1])
    if o == "vf":
        return vfield(a[0], a[1], a[2])
    if o == "upd":
        r = a[0]
        for i in range(1, len(a), 2):
            r = upd(r, a[i], a[i + 1])
        return r
    if o in spec_arith and len(a) == 2:
        return liftarith(o, *a)
    if o == "len":
        return length(a[0])
    if o == "elem":
        return elem(a[0])
    if o == "concat":
        return concat(*a)
    if o == "rev":
        return mkrev(a[0])
    if o in ("sum", "maxover", "minover") and a[2].op == "bool":
        return sumover(o, a[0], a[1], a[2].a[0], a[3])
    if o == "index":
        return index(*a)
    return mk(o, *a)


def subst(t, old, new, memo):
    """t with every occurrence of term `old` replaced, also inside guards"""
    if not isinstance(t, T):
        return t
    if t is old:
        return new
    r = memo.get(t.id)
    if r is not None:
        return r
    if not mentions(t, old):
        memo[t.id] = t
        return t
    o, a = t.op, t.a
    if o == "phi":
        r = mkphi([(subst_b(g, old, new, memo), subst(x, old, new, memo)) for g, x in alts(t)])
    elif o == "bool":
        r = boolt(subst_b(a[0], old, new, memo))
    elif o in ("seq", "any") :
        # the element of the inner iteration is bound there
        if a[0] is old.a[0]:
            r = t
        else:
            xs = [subst(x, old, new, memo) if isinstance(x, T) else subst_b(x, old, new, memo) for x in a]
            r = mk(o, *xs) if o == "any" else mkseq(*xs)
    elif o == "fld":
        r = field(subst(a[0], old, new, memo), a[1])
    elif o == "vf":
        r = vfield(subst(a[0], old, new, memo), a[1], a[2])
    elif o == "upd":
        r = subst(a[0], old, new, memo)
        for i in range(1, len(a), 2):
            r = upd(r, a[i], subst(a[i + 1], old, new, memo))
    elif o in ("pos", "ins", "sum", "maxover", "minover") and any(x is old.a[0] for x in a[:2]):
        r = t
    else:
        r = build(o, [subst(x, old, new, memo) if isinstance(x, T) else x for x in a])
    memo[t.id] = r
    return r


def settle(t, c):
    """t as seen where c holds, also inside of terms"""
    if c in (TRUE, FALSE):
        return t
    seen, todo, ps = set(), [t], []
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "phi" and x is not t:
            ps.append(x)
        todo += alts_terms(x)
    for p in ps:
        q = under(p, c)
        if q is not p:
            t = subst(t, p, q, {})
    return t


def alts_terms(x):
    return [u for _, u in alts(x)] if x.op == "phi" else [u for u in x.a if isinstance(u, T)]


def subst_b(b, old, new, memo):
    if b in (0, 1):
        return b
    out = b
    m = {}
    for v in B.support(b):
        t = atom_term(v)
        n = subst(t, old, new, memo)
        if n is not t:
            m[v] = rebuild(n)
    return compose(out, m) if m else out


def rebuild(t):
    """condition for an atom term whose arguments changed"""
    if t.op == "eq":
        return eq(*t.a)
    if t.op == "lt":
        return lt(*t.a)
    if t.op == "is":
        x, v = t.a
        for p, vs in VARIANTS.items():
            if v in vs and (x.op != "adt" or x.a[0] == p):
                if x.op in ("adt", "phi", "upd") or v == "Some" or v == "Ok":
                    return is_variant(x, v, vs)
        return atom(t)
    if t.op == "bool":
        return t.a[0]
    return atom(t)


def compose(b, sub):
    memo = {}

    def go(f):
        if f in (0, 1):
            return f
        r = memo.get(f)
        if r is None:
            v, lo, hi = B.nodes[f]
            c = sub.get(v)
            r = B.ite(B.var(v) if c is None else c, go(hi), go(lo))
            memo[f] = r
        return r

    return go(b)


def ren_b(b):
    return b


def exit_key(c):
    # conditions are canonical, so their identity orders them the same way wherever they are met in this run
    return c


def while_term(cs, steps):
    """cs: exit conditions; steps: {name: next value}; only the carried values the exits depend on matter, and how the exits
    are told apart does not"""
    E = B.OR(*cs)
    rel, work = set(), [boolt(E)]
    while work:
        x = work.pop()
        for n in steps:
            if n not in rel and mentions(x, n):
                rel.add(n)
                work.append(steps[n])
    sl = sorted(rel, key=lambda n: n.id)
    return mk("while", boolt(E), *[mk("tuple", n, steps[n]) for n in sl])


def left_with(w, c):
    """the state in which the loop w is left satisfies c (a condition over the carried values)"""
    return at_end(w, boolt(c)).a[0]


def at_end(w, t):
    """t, over the carried values of the loop w, in the state in which w is left"""
    E, ns = w.a[0].a[0], [t.a[0] for t in w.a[1:]]
    for n in ns:
        if n.a[0].op == "phi":
            g = n.a[0].a[0]
            out = []
            for h in (g, B.NOT(g)):
                new, used = {}, set()
                for m in ns:
                    i, k = under(m.a[0], h), m.a[1]
                    while (i.id, k) in used:
                        k += 1
                    used.add((i.id, k))
                    new[m] = mk("lvn", i, k)
                out.append((h, at_end(while_term([subst_all(boolt(E), new).a[0]], {new[x.a[0]]: subst_all(x.a[1], new) for x in w.a[1:]}),
                                      subst_all(t, new))))
            return mkphi(out)
    if t.op == "bool" and E != FALSE:
        t = boolt(B.cofactor_by(t.a[0], E))
    return subst_all(t, {n: mk("fin", n, w) for n in ns})


def best_of(src, lv, step, base):
    """a walk that keeps the best element seen so far, beginning with none: the pick of the largest or the smallest key"""
    if is_variant(step, "Some", ["None", "Some"]) != TRUE:
        return None
    u = under(vfield(step, "Some", "0"), base)
    p = vfield(lv, "Some", "0")
    has = is_variant(lv, "Some", ["None", "Some"])
    e, pos = elem(src), mk("pos", src)
    parts = [(x, field(p, str(i))) for i, x in enumerate(u.a)] if u.op == "tuple" else [(u, p)]
    keep = None
    for x, q in parts:
        k = B.OR(FALSE, *[g for g, t in alts(x) if t is q])
        if keep is not None and k != keep:
            return None
        keep = k
    new = [under(x, B.NOT(keep)) for x, q in parts]
    if keep in (TRUE, FALSE) or any(mentions(x, lv) for x in new):
        return None
    u = new[0] if u.op != "tuple" else mk("tuple", *new)
    for k, (_, q) in zip(new, parts):
        for m, c in (("max_by_key", lt(k, q)), ("min_by_key", B.NOT(lt(k, q)))):
            if B.constrain(B.AND(has, c), base) != B.constrain(keep, base):
                continue
            seq = mkseq(src, TRUE, mk("tuple", pos, e)) if mentions(u, pos) else src
            w = mk("pick", m, seq, k)
            u = subst_all(u, {pos: field(w, "0"), e: field(w, "1")} if mentions(u, pos) else {e: w})
            some_ = B.NOT(eq(length(src), int_(0)))
            return mkphi([(some_, some(u)), (B.NOT(some_), NONE)])
    return None


def subst_all(t, new):
    """simultaneous replacement"""
    tmp = {n: mk("tmp", i) for i, n in enumerate(new)}
    for n, x in tmp.items():
        if isinstance(t, T):
            t = subst(t, n, x, {})
    for n, x in tmp.items():
        t = subst(t, x, new[n], {})
    return t


def strip_seq(src):
    """the collection an iteration really walks, and the condition under which an element of it is visited"""
    g = TRUE
    while src is not None and src.op == "seq":
        g = B.AND(g, src.a[1])
        src = src.a[0]
    return src, g


def first_exits(src, es):
    """es: [[guard, …, condition on the element]] of the (exclusive) early exits of one loop: guard and condition of
    each become: some element leaves the loop, and the first that does leaves by this exit"""
    C = B.OR(FALSE, *[e[-1] for e in es])
    g = any_of(src, C)
    base = bases(src)[-1]
    old, new = mk("elem", base), index(base, pos_of(base, C))
    memo, rest = {}, TRUE
    for i, e in enumerate(es):
        c = subst_b(B.constrain(e[-1], C), old, new, memo) if i + 1 < len(es) else TRUE
        e[0] = B.AND(g, rest, c)
        rest = B.AND(rest, B.NOT(c))
        e[-1] = C


def leave_at(fl, st, val, src, c):
    """state and value on leaving a loop at its first element with c: the current element is the one found"""
    base = bases(src)[-1]
    old = mk("elem", base)
    at = pos_of(base, c)
    new = index(base, at)
    memo, memo2 = {}, {}

    def here(v):
        return subst(subst(v, old, new, memo), mk("pos", base), at, memo2)

    def placed(v):
        """a reference to the current element is one to the element found"""
        if v.op == "ref":
            c, p = v.a
            for i, e in enumerate(p):
                if e == ("elem",):
                    w = fl.read_path(fl.read_cell(st, c), p[:i])
                    if strip_upd(w) is base:
                        return mk("ref", c, p[:i] + (("idx", at),) + p[i + 1:])
            return v
        if v.op == "phi":
            return mkphi([(g, placed(t)) for g, t in alts(v)])
        if v.op in ("tuple", "adt", "closure"):
            return mk(v.op, *[placed(x) if isinstance(x, T) else x for x in v.a])
        return v

    refs = {k: placed(v) for k, v in st.mem.items() if isinstance(v, T) and k[0] == "L" and has_op(v, ("ref",))}
    if isinstance(val, T) and has_op(val, ("ref",)):
        val = placed(val)
    st.mem.update(refs)
    for k, v in list(st.mem.items()):
        for u in updelems(v, base):
            v = subst(v, u, setat(base, at, u.a[1]), {})
        st.mem[k] = v
        if k[0] == "S" and any(mentions(terms._all[i], old) or mentions(terms._all[i], mk("pos", base)) for i in k[2]):
            ks = [here(terms._all[i]) for i in k[2]]
            st.mem.pop(k)
            st.mem[("S", k[1], tuple(x.id for x in ks))] = here(v)
        elif v.op not in ("ref",):
            st.mem[k] = here(v)
    if isinstance(val, T):
        val = here(val)
    return val


def strip_upd(v):
    while v.op == "updelem":
        v = v.a[0]
    return v


def updelems(t, base, seen=None):
    """the terms in t that stand for base with its current element replaced"""
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t.id in seen:
        return []
    seen.add(t.id)
    if t.op == "updelem" and t.a[0] is base:
        return [t]
    xs = [x for _, x in alts(t)] if t.op == "phi" else t.a
    return [u for x in xs for u in updelems(x, base, seen)]


def mentions(t, x, seen=None):
    if t is x:
        return True
    if seen is None:
        seen = set()
    if not isinstance(t, T) or t.id in seen:
        return False
    seen.add(t.id)
    for a in t.a:
        if isinstance(a, T) and mentions(a, x, seen):
            return True
    if t.op == "phi":
        for g, _ in alts(t):
            if any(mentions(atom_term(v), x, seen) for v in B.support(g) if v < (1 << 59)):
                return True
    k = GPOS.get(t.op)
    if k is not None and t.a[k] not in (0, 1):
        if any(mentions(atom_term(v), x, seen) for v in B.support(t.a[k]) if v < (1 << 59)):
            return True
    return False


GPOS = {"bool": 0, "seq": 1, "any": 1}


def per_elem(k, src):
    es = []
    while True:
        es.append(mk("elem", src))
        if src.op in ("seq", "rev", "part", "mapfld", "slice", "sorted"):
            src = src.a[0]
            continue
        break
    return any(mentions(terms._all[i], e) for i in k[2] for e in es)


def liftarith(op, a, b):
    if not liftable(a, b):
        return arith(op, a, b)
    if a.op == "phi":
        return mkphi([(g, liftarith(op, t, b)) for g, t in alts(a)])
    if b.op == "phi":
        return mkphi([(g, liftarith(op, a, t)) for g, t in alts(b)])
    return arith(op, a, b)


def cmp3(a, b):
    l, e = lt(a, b), eq(a, b)
    l = B.AND(l, B.NOT(e))
    g = B.AND(B.NOT(l), B.NOT(e))
    return mkphi([(l, adt(ORD, "Less", (), ())), (e, adt(ORD, "Equal", (), ())), (g, adt(ORD, "Greater", (), ()))])


WIDTH = {f"{s}{n}": n for s in "ui" for n in (8, 16, 32, 64, 128)}
WIDTH["usize"] = WIDTH["isize"] = 32  # the runtime is 32-bit wasm; lengths fit


def narrow(v, src, dst):
    """an integer cast that can lose bits"""
    a, b = WIDTH.get(src), WIDTH.get(dst)
    if a is None or b is None or v.op == "int" and v.a[0] < 1 << (b - (dst[0] == "i")):
        return v
    if b < a or src[0] != dst[0] and not (src[0] == "u" and b > a):
        return mk("trunc", dst, v)
    return v


def setat(v, i, x):
    """list v with its element i replaced by x"""
    if v.op == "phi":
        return mkphi([(g, setat(t, i, x)) for g, t in alts(v)])
    if x.op == "phi":
        return mkphi([(g, setat(v, i, t)) for g, t in alts(x)])
    if v.op == "setidx" and v.a[1] is i:
        v = v.a[0]
    if x.op == "tuple":
        # a pair that repeats what the element is known to hold is an update of that element
        old, kv = index(v, i), []
        for n, y in enumerate(x.a):
            if y is not field(old, str(n)) and y is not known_at(v, i, n):
                kv.append((str(n), y))
        if len(kv) < len(x.a):
            x = old
            for n, y in kv:
                x = upd(x, n, y)
    return mk("setidx", v, i, x)


def known_at(v, i, n):
    """what field n of element i of v is, by the way i was found"""
    if i.op == "pos" and i.a[0] is v:
        c = i.a[1].a[0]
        e = mk("fld", mk("elem", v), str(n))
        for w in B.support(c):
            t = atom_term(w)
            if t.op == "eq" and e in t.a and B.AND(c, B.NOT(B.var(w))) == FALSE:
                return t.a[1] if t.a[0] is e else t.a[0]
    return None


def index(v, i):
    if i.op == "ctr" and i.a[0] is v:
        return elem(v)
    if v.op == "phi":
        return mkphi([(g, index(t, under(i, g) if i.op == "phi" else i)) for g, t in alts(v)])
    if i.op == "phi" and any(t.op == "pos" and len(t.a) == 1 for _, t in alts(i)):
        return mkphi([(g, index(v, t)) for g, t in alts(i)])
    if v.op == "array" and i.op == "int" and i.a[0] < len(v.a):
        return v.a[i.a[0]]
    if v.op == "setidx" and v.a[1] is i:
        return v.a[2]
    if v.op == "undef":
        return v
    i = lastof(i, v)
    if i.op in ("pos", "ctr") and len(i.a) == 1 and (i.a[0] is v or same_walk(i.a[0], v)):
        return elem(v)
    if v.op == "concat" and i.op == "pos" and i.a[0] is v:
        # the first match of a list made of several is the first match of the first of them that has one
        c = i.a[1].a[0]
        if not positional(boolt(c), v):
            ps, rest = [], TRUE
            for p in v.a:
                d = subst_b(c, elem(v), elem(p), {})
                a = any_of(p, d) if p is not v.a[-1] else TRUE
                q, g = p, TRUE
                if p.op == "seq":
                    q = p.a[0]
                    x = subst(p.a[2], elem(q), index(q, pos_of(q, B.AND(p.a[1], d))), {})
                else:
                    x = index(p, pos_of(p, d))
                ps.append((B.AND(rest, a), x))
                rest = B.AND(rest, B.NOT(a))
            return mkphi(ps)
    return mk("index", v, i)


def elem(v):
    if v.op == "phi":
        return mkphi([(g, elem(t)) for g, t in alts(v)])
    if v.op == "updelem":
        return v.a[1]
    if v.op == "seq":
        return v.a[2]
    return mk("elem", v)


def bound_term(b):
    """the number a bounded list's bound stands for: a configured one or a literal"""
    m = b and re.match(r"<\w+ as [\w:]*Config>::(\w+)$", b)
    if m:
        return mk("cfg", m.group(1))
    m = b and re.match(r"(?:[\w:]*::)?ConstU32<(\d+)>$", b)
    return int_(int(m.group(1))) if m else None


def length(v):
    if v.op == "phi":
        return mkphi([(g, length(t)) for g, t in alts(v)])
    if v.op == "array":
        return int_(len(v.a))
    if is_empty_coll(v):
        return int_(0)
    if v.op in ("setidx", "updelem", "rev", "sorted", "sortedby"):
        return length(v.a[0])
    if v.op == "concat":
        r = length(v.a[0])
        for p in v.a[1:]:
            r = liftarith("add", r, length(p))
        return r
    if v.op == "call" and v.a[0] in ("push", "insert"):
        return arith("add", length(v.a[1]), int_(1))
    if v.op == "seq":
        return length(v.a[0]) if v.a[1] == TRUE else sumover("sum", int_(0), v, TRUE, int_(1))
    if v.op == "storage" and v.a[1] != "entries":
        v = mk("storage", v.a[0], "entries", *v.a[2:])
    if v.op == "acc" and length(v.a[3]) is mk("len", v.a[2]):
        return length(v.a[0])
    return mk("len", v)


def more_of(v):
    """the condition under which a walk over v visits an element"""
    if v.op == "phi":
        return B.OR(*[B.AND(g, more_of(t)) for g, t in alts(v)])
    if v.op == "seq":
        return B.AND(atom(mk("more", v.a[0])), v.a[1])
    if is_empty_coll(v):
        return FALSE
    return atom(mk("more", v))


terms.LENGTH[0], terms.MOREOF[0] = length, more_of


def lastof(i, v):
    """the position before the end of v"""
    if i.op in ("sub", "satsub") and i.a[0] is length(v) and i.a[1] is int_(1):
        return mk("lastix")
    return i


def is_empty_coll(v):
    return (v.op == "call" and v.a[0] in ("Vec::new", "empty")) or (v.op == "array" and not v.a) or v.op == "default"


def iter_src(it):
    while it.op in ITER_OPS:
        if it.op == "izip":
            return mk("zip", iter_src(it.a[0]), iter_src(it.a[1]))
        it = it.a[0]
    if it.op == "phi" and any(t.op in ITER_OPS for _, t in alts(it)):
        return mkphi([(g, iter_src(t)) for g, t in alts(it)])
    return it


def optional(it):
    """an iterator over at most one value"""
    while it.op in ("imap", "ifilter", "ifmap", "iinspect", "ipeek"):
        it = it.a[0]
    return it.op == "iopt"


FEW = 8


def given(it, whole=False):
    """a walk of a few values written out, as one walk of each"""
    if it.op == "iter" and it.a[0].op == "array" and 0 < len(it.a[0].a) <= FEW:
        return [mk("iopt", some(x)) for x in it.a[0].a]
    if it.op in (("imap", "iinspect", "ipeek") if whole else ("imap", "ifilter", "ifmap", "iinspect", "ipeek")):
        xs = given(it.a[0], whole)
        return xs and [mk(it.op, x, *it.a[1:]) for x in xs]
    return None


def exhausted(it):
    if it.op == "iter":
        return mk("iter", mk("array", *it.a[0].a[1:]))
    return mk("iopt", NONE) if it.op == "iopt" else mk(it.op, exhausted(it.a[0]), *it.a[1:])


def same_walk(v, w):
    (a, g), (b, h) = strip_seq(v), strip_seq(w)
    return a is b and g == h


def to_iter(fl, st, v):
    if v.op == "phi":
        return mkphi([(g, to_iter(fl, st, t)) for g, t in alts(v)])
    if v.op in ITER_OPS:
        return v
    if v.op == "ref":
        x = fl.read_ref(st, v)
        if x.op in ITER_OPS:
            return x
        return mk("iter", fl.deep(st, x))
    if v.op == "adt" and v.a[0].endswith("ops::Range") and len(v.a) == 5 and v.a[3] is int_(0) and v.a[4].id in fl.lenof:
        # the positions of a list
        return liftmap(fl.lenof[v.a[4].id], lambda w: mk("iter", mk("seq", w.a[0], w.a[1], mk("pos", w)) if w.op == "seq" else mk("seq", w, TRUE, mk("pos", w))))
    return mk("iter", fl.deep(st, v))
