"""Reads .spec files and decides their obligations on the summaries."""
import fnmatch
import os
import re
import time

from .terms import *
from . import terms, flow, facts, spec
from .lang import Parser, SpecError
from .spec import same, beq, bimp, restrict
from .flow import elem

PURE = re.compile(r"^(Bounded::hash|.*::ensure_origin|Lookup::lookup|(Fungible|Currency)::(total_balance|balance|reducible_balance|balance_on_hold|minimum_balance|"
                  r"balance_frozen|total_issuance|total_balance_on_hold)|Encode::.*|.*::(hash|fmt|as_ref|as_mut|partial_cmp)|panicking::.*|Preimages::(len|have|fetch)|"
                  r"Hash.*::hash.*|StorageVersion::.*|Pallet::(on_chain|in_code).*|RuntimeDbWeight::.*|Weight::.*|WeightInfo::.*|.*BlockWeights.*|Argument.*|Option::(unwrap|expect).*|"
                  r"Result::(unwrap|expect).*|Arguments::.*|DbWeight::.*|log::.*|__private.*|TypedGet::.*|.*::max_value|.*::saturated_into|unwrap_failed|"
                  r"option::.*|result::.*|ptr::.*|slice::.*|sp_arithmetic::.*|Perbill::.*|Perquintill::.*|Percent::.*)$")


KIND = {"runs": "enter"}
EFFECTS = ("call", "event", "put", "del", "final", "runs", "frame")


def owns(e, owned):
    """an effect on a storage item, a call, or a call with an argument, named in the list"""
    if e.kind in ("put", "del"):
        return e.item in owned
    if e.kind == "event":
        return "Event" in owned
    if e.kind == "call":
        return any("::" in p and (fnmatch.fnmatch(e.name, p) or any(show(a) == p for a in e.args[:1])) for p in owned) and not PURE.match(e.name)
    return False


class Section:
    def __init__(self, crate, name, params, file, line):
        self.crate, self.name, self.params, self.file, self.line = crate, name, params, file, line
        self.lets, self.obl, self.given, self.optional = [], [], [], False


ALIAS = {}  # (crate, function) -> the call by which it is recognised under another name
OWNS = {}  # (crate, property) -> storage items and effects that only the stated operations of the crate may have


class Obl:
    __slots__ = ("tags", "kind", "text", "sec", "line", "n")

    def __init__(self, tags, kind, text, sec, line):
        self.tags, self.kind, self.text, self.sec, self.line = tags, kind, text, sec, line


class Viol:
    def __init__(self, prop, key, msg, where=None):
        self.prop, self.key, self.msg, self.where = prop, key, msg, where


def parse_file(path):
    secs, defs, also = [], [], []
    crate = None
    cur = None
    logical = []
    with open(path) as fh:
        for n, l in enumerate(fh, 1):
            l = l.rstrip()
            s = l.split("#")[0].rstrip() if not l.lstrip().startswith("#") else ""
            if not s.strip():
                continue
            ind = len(s) - len(s.lstrip())
            if ind > 2 and logical:
                logical[-1][2] += " " + s.strip()
            else:
                logical.append([n, ind, s.strip()])
    for n, ind, s in logical:
        if ind == 0:
            w = s.split(None, 1)
            if w[0] == "crate":
                crate = w[1]
            elif w[0] == "sorted":
                it, lst, key = re.match(r"(\w+)\[\]([\w.]*) by ([\w.]*)$", w[1].replace("elem", "")).groups()
                flow.SORTED.setdefault(it, set()).add((lst.strip("."), key.strip(".")))
            elif w[0] == "alias":
                a, _, b = w[1].split()
                ALIAS[(crate, a)] = b
            elif w[0] == "owns":
                t, *xs = w[1].split()
                for x in t.split(","):
                    OWNS.setdefault((crate, x), []).extend(y for y in xs if y not in OWNS.get((crate, x), ()))
            elif w[0] == "also":
                t, *ks = w[1].split()
                also += [(t, k) for k in ks]
            elif w[0] == "watch":
                ns = w[1].replace("[]", "").split()
                flow.WATCH[(crate, ns[0])] = ns[1:]
            elif w[0] == "def":
                m = re.match(r"(\w+)\s*\(([^)]*)\)\s*=\s*(.*)$", w[1])
                defs.append((m.group(1), [x.strip() for x in m.group(2).split(",") if x.strip()], m.group(3)))
            elif w[0] in ("fn", "fn?"):
                m = re.match(r"(.+?)\(([^)]*)\)\s*$", w[1])
                cur = Section(crate, m.group(1).strip(), [x.strip() for x in m.group(2).split(",") if x.strip()], os.path.basename(path), n)
                cur.optional = w[0] == "fn?"
                secs.append(cur)
            else:
                raise SpecError(f"{path}:{n}: {s}")
            continue
        w = s.split(None, 1)
        if w[0] == "given":
            cur.given.append(w[1])
            continue
        if w[0] in ("let", "input"):
            m = re.match(r"([\w.]+)\s*=\s*(.*)$", w[1])
            cur.lets.append((m.group(1), m.group(2), w[0]))
            continue
        tags = w[0].split(",")
        w2 = w[1].split(None, 1)
        o = Obl(tags + [t for t, k in also if k == w2[0] and t not in tags], w2[0], w2[1] if len(w2) > 1 else "", cur, n)
        cur.obl.append(o)
    return secs, defs


def split_kw(s, kws):
    """splits `text kw1 a kw2 b` at top nesting level"""
    out = {"": ""}
    cur = ""
    d = 0
    for tok in re.findall(r"\s+|[A-Za-z_]\w*(?:::\w+)*|.", s):
        if tok in "([{":
            d += 1
        elif tok in ")]}":
            d -= 1
        if d == 0 and tok in kws:
            cur = tok
            out[cur] = ""
            continue
        out[cur] += tok
    return {k: v.strip() for k, v in out.items()}


class Checker:
    def __init__(self, fx, specs):
        self.fx = fx
        self.secs = []
        for p in specs:
            s, d = parse_file(p)
            for x in s:
                x.defs = d
            self.secs += s
        self.viol = []
        self.stats = {}
        self.sums = {}
        for s in self.secs:
            if s.optional and (s.crate, s.name) in ALIAS and not self.find(s):
                self.rename(s, ALIAS[(s.crate, s.name)])

    def rename(self, sec, calls):
        """the function a section is about, when it has another name: the only one of its arity that makes the given call"""
        fs = {}
        for f in list(self.fx.fns.values()):
            if f["crate"] == sec.crate and any(b and b["t"] and b["t"]["k"] == "call" and str(b["t"]["f"].get("path")).split("::")[-1] == calls for b in f["blocks"]):
                p = f["path"].split("::{closure")[0]
                for g in self.fx.by_path.get(p, []):
                    if g["nargs"] == len(sec.params):
                        fs[g["key"]] = g
        if len(fs) == 1:
            f, = fs.values()
            self.fx.by_path[f["path"]].remove(f)
            if not self.fx.by_path[f["path"]]:
                del self.fx.by_path[f["path"]]
            f["path"] = "::".join(f["path"].split("::")[:-1] + [sec.name])
            self.fx.by_path.setdefault(f["path"], []).append(f)

    def tags(self):
        return sorted({t for s in self.secs for o in s.obl for t in o.tags})

    def env(self, sec, args):
        env = {}

        def mkdef(params, body):
            def f(p, a):
                if len(a) != len(params):
                    raise SpecError("wrong number of arguments in " + body)
                e = dict(p.env)
                e.update(zip(params, a))
                q = Parser(e, self.fx, sec.crate, body)
                v = q.term()
                if not q.done():
                    raise SpecError("trailing text in " + body)
                return v
            return f

        for n, ps, body in sec.defs:
            env[n] = mkdef(ps, body)
        for n, a in zip(sec.params, args):
            env[n] = a
        return env

    def find(self, sec):
        name, impl = sec.name, None
        cands = []
        if " in " in name:
            name, impl = [x.strip() for x in name.split(" in ", 1)]
        for p, fs in self.fx.by_path.items():
            if fs[0]["crate"] != sec.crate or p.split("::")[-1] != name:
                continue
            if re.search(r"(^|::)(weights|benchmarking)::", p) or "WeightInfo" in p:
                continue
            if impl is not None and impl not in p:
                continue
            cands += fs
        if impl is None and len(cands) > 1:
            inh = [f for f in cands if "Pallet" in f["path"]]
            cands = inh or cands
        return cands

    def summary(self, f, inputs=None):
        k = f["key"]
        if inputs:
            return spec.Summary(self.fx, f, inputs)
        if k not in self.sums:
            self.sums[k] = spec.Summary(self.fx, f)
        return self.sums[k]

    def run(self, prop):
        """decide all obligations tagged prop"""
        st = self.stats = {"functions": {}, "obligations": 0, "call_sites": 0, "blocks": 0, "inlined": set(), "lines": []}
        self.viol = []
        for sec in self.secs:
            ob = [o for o in sec.obl if prop in o.tags]
            if not ob:
                continue
            try:
                self.run_section(sec, ob, prop)
            except (MemoryError, KeyboardInterrupt):
                raise
            except Exception as x:  # fail closed: a function or type the rule names is gone or changed shape
                if os.environ.get("DBG"):
                    raise
                self.v(prop, f"{sec.crate}::{sec.name}:undecided", f"the rule for `{sec.name}` cannot be decided on this tree: {type(x).__name__}: {str(x)[:300]}")
        for (crate, p), owned in OWNS.items():
            if p == prop and crate in self.fx.crates:
                self.run_owned(crate, prop, owned)
        return self.viol

    def run_owned(self, crate, prop, owned):
        """no operation of the crate has an effect on what the property owns that its rules do not state"""
        done = set()
        for sec in [x for x in self.secs if x.crate == crate]:
            fs = self.find(sec)
            done |= {f["key"] for f in fs}
            fr = [o for o in sec.obl if o.kind == "frame"]
            if any(prop in o.tags for o in fr) or not any(o.kind in EFFECTS for o in sec.obl) or sec.optional and len(fs) != 1:
                continue
            o = Obl([prop], "owned", fr[0].text if fr else "", sec, sec.line)
            o.n = owned
            try:
                self.run_section(sec, [o], prop)
            except (MemoryError, KeyboardInterrupt):
                raise
            except Exception:
                if os.environ.get("DBG"):
                    raise
                # a section of other properties: those report that it cannot be decided
        for f in self.entries(crate):
            if f["key"] in done:
                continue
            s = self.summary(f)
            self.stats["functions"][f["path"]] = site(place(f))
            self.stats["obligations"] += 1
            name = f["path"].split("::")[-1]
            for e in s.effects:
                left = B.AND(e.pc, s.ok)
                if owns(e, owned) and norm_false(left) is False:
                    tgt = e.item if e.kind in ("put", "del") else e.name
                    self.v(prop, f"{crate}::{name}:unstated:{e.kind}:{tgt}", f"`{name}`, for which no rule is stated, performs {e.kind} {tgt} when {ce(left)}", site(e.site))
                    break

    def entries(self, crate):
        """the calls and block hooks of the crate's pallet"""
        out = {}
        for f in self.fx.fns.values():
            if f["defcrate"] != crate or not f["root"]:
                continue
            if f["path"].endswith("::dispatch_bypass_filter"):
                for g in self.fx.fns.values():
                    if g["defcrate"] != crate or not g["path"].split("::{closure")[0].endswith("::dispatch_bypass_filter"):
                        continue
                    for b in g["blocks"]:
                        t = b and b["t"]
                        if t and t["k"] == "call":
                            for h in self.fx.by_path.get(str(t["f"].get("path")), ()):
                                if h["crate"] == crate and "Pallet" in h["path"]:
                                    out[h["key"]] = h
            elif re.search(r"::Hooks<.*>::(on_initialize|on_finalize|on_idle|on_poll|on_runtime_upgrade|offchain_worker)$", f["path"]):
                out[f["key"]] = f
        return list(out.values())

    def selftest(self, prop):
        """how much each obligation says: its negation, its effect under the opposite condition, its value replaced, and its
        permission without one of the requirements must all be refused on this tree -> (wrong rules tried, refused, [accepted])"""
        n = bad = 0
        odd = []
        keep = self.viol, self.stats
        for sec in self.secs:
            for o in [o for o in sec.obl if prop in o.tags]:
                ms = []
                kw = split_kw(o.text, ("when", "in"))
                tail = (" in " + kw["in"] if kw.get("in") else "")
                if o.kind == "require":
                    ms.append((o.kind, f"!({o.text})", sec.obl))
                elif o.kind == "allows":
                    rs = [r for r in sec.obl if r.kind == "require"]
                    ms += [(o.kind, o.text, [x for x in sec.obl if x is not r]) for r in rs]
                elif o.kind in ("call", "event", "runs", "put", "del"):
                    t = kw[""]
                    w = f"{tail} when {kw['when']}" if kw.get("when") else tail
                    if o.kind == "put" and "=" in t:
                        ms.append((o.kind, split_eq(t).split("=", 1)[0] + "= 'another value'" + w, sec.obl))
                    elif t.endswith((")", "}", "]")):
                        # its last argument replaced
                        d, i = 0, len(t) - 2
                        while i > 0 and (d > 0 or t[i] not in ",([{:" or t[i] == ":" and ":" in t[i - 1:i + 2:2]):
                            d += (t[i] in ")]}") - (t[i] in "([{")
                            i -= 1
                        if t[i + 1:-1].strip():
                            ms.append((o.kind, f"{t[:i + 1]} 'another value'{t[-1]}{w}", sec.obl))
                elif o.kind in ("final", "returns", "leaves"):
                    v = "'another value'"
                    if o.kind != "returns":
                        l = split_eq(kw[""]).split("=", 1)[0] if o.kind == "final" else kw[""].split("=", 1)[0]
                        v = unq(l) + " = " + v
                    ms.append((o.kind, v + (f" when {kw['when']}" if kw.get("when") else ""), sec.obl))
                for k, t, obl in ms:
                    self.viol, self.stats = [], {"functions": {}, "obligations": 0, "call_sites": 0, "blocks": 0, "inlined": set(), "lines": []}
                    was, sec.obl = sec.obl, obl
                    try:
                        self.run_section(sec, [Obl(o.tags, k, t, sec, o.line)], prop)
                    except (MemoryError, KeyboardInterrupt):
                        raise
                    except Exception as x:
                        if os.environ.get("DBG"):
                            print("not tried", sec.name, k, t[:150], x)
                        continue
                    finally:
                        sec.obl = was
                    n += 1
                    if self.viol:
                        bad += 1
                    else:
                        miss = [r.text for r in was if r not in obl]
                        odd.append(f"{sec.name}: {k} {t}" + (f" without `{miss[0]}`" if miss else ""))
        self.viol, self.stats = keep
        return n, bad, odd

    def v(self, prop, key, msg, where=None):
        if os.environ.get("DBG") and spec.LAST:
            a, b, pc = spec.LAST[0]
            print("    DIFF", show(restrict(a, pc))[:6000], "\n      vs", show(restrict(b, pc))[:6000], "\n      if", bshow(pc)[:900])
        self.viol.append(Viol(prop, key, msg, where))

    def run_section(self, sec, ob, prop):
        fs = self.find(sec)
        who = f"{sec.crate}::{sec.name}"
        if sec.optional and (len(fs) != 1 or len(sec.params) != fs[0]["nargs"]):
            # an internal helper whose effects its callers' rules state as well: it may be renamed or folded into them
            self.stats["lines"].append(f"{who}: not present with this signature, decided through its callers only")
            return
        if len(fs) != 1:
            self.v(prop, f"{who}:missing", f"expected exactly one function `{sec.name}` in {sec.crate}, found {len(fs)}")
            return
        f = fs[0]
        if len(sec.params) != f["nargs"]:
            self.v(prop, f"{who}:signature", f"`{sec.name}` takes {f['nargs']} arguments, the rule is written for {len(sec.params)}", site(f["span"]))
            return
        ins = [x for x in sec.lets if x[2] == "input"]
        inputs = None
        if ins:
            args = [mk("arg", i) for i in range(f["nargs"])]
            env = self.env(sec, args)
            m = {}
            for n, body, _ in ins:
                m[n] = Parser(env, self.fx, sec.crate, body).term()
            inputs = [m.get(p, a) for p, a in zip(sec.params, args)]
        s = self.summary(f, inputs)
        env = self.env(sec, s.args)
        env["result"] = s.ret
        env["succeeds"] = boolt(s.ok)
        for n, body, kind in sec.lets:
            if kind == "input":
                continue
            env[n] = self.parse(env, sec, body)
        if sec.given:
            g = TRUE
            for x in sec.given:
                g = B.AND(g, self.parse(env, sec, x, "cond"))
            s = Given(s, g)
        st = self.stats
        st["functions"][f["path"]] = site(place(f))
        st["call_sites"] += s.fl.calls
        st["blocks"] += s.fl.sblocks
        st["inlined"] |= s.fl.inlined
        for o in ob:
            st["obligations"] += 1
            st["lines"].append(f"{who}: {o.kind} {o.text}"[:200])
            try:
                h = getattr(self, "do_" + o.kind.replace("-", "_"))
            except AttributeError:
                raise SpecError(f"{sec.file}:{o.line}: unknown obligation {o.kind}")
            try:
                h(prop, who, sec, s, env, o)
            except SpecError as e:
                raise SpecError(f"{sec.file}:{o.line}: {e}")

    def parse(self, env, sec, text, want="term"):
        p = Parser(env, self.fx, sec.crate, text)
        v = p.cond() if want == "cond" else p.term()
        if not p.done():
            raise SpecError(f"trailing text {p.t[p.i:]} in {text!r}")
        return v

    # ---- obligations -----------------------------------------------------------------
    def where(self, s):
        return site(place(s.f))

    def do_require(self, prop, who, sec, s, env, o):
        """success implies the condition"""
        c = self.parse(env, sec, o.text, "cond")
        if not bimp(s.ok, c):
            bad = B.AND(s.ok, B.NOT(c))
            self.v(prop, f"{who}:require:{o.text}", f"`{sec.name}` can succeed although `{o.text}` does not hold; e.g. when {ce(bad)}", self.where(s))

    def requires(self, sec, env):
        c = TRUE
        for o in sec.obl:
            if o.kind in ("require", "assume"):
                c = B.AND(c, self.parse(env, sec, o.text, "cond"))
        return c

    def do_assume(self, prop, who, sec, s, env, o):
        pass

    def do_allows(self, prop, who, sec, s, env, o):
        """nothing else can make it fail: all `require` conditions together imply success"""
        c = self.requires(sec, env)
        if o.text:
            c = B.AND(c, self.parse(env, sec, o.text, "cond"))
        c = B.AND(c, getattr(s, "given", TRUE))
        if not bimp(c, s.ok):
            bad = B.AND(c, B.NOT(s.ok))
            self.v(prop, f"{who}:allows", f"`{sec.name}` refuses a call that meets every stated condition; e.g. when {ce(bad)}", self.where(s))

    def do_fails(self, prop, who, sec, s, env, o):
        """fails Error::X when cond"""
        kw = split_kw(o.text, ("when",))
        want = self.parse(env, sec, kw[""])
        c = self.parse(env, sec, kw["when"], "cond")
        c = B.AND(c, s.st.pc)
        r = restrict(s.ret, c)
        if not same(r, err(want), c) and c != FALSE:
            self.v(prop, f"{who}:fails:{o.text}", f"`{sec.name}` should fail with {kw['']} when {kw['when']}; it yields {show(r)[:300]}", self.where(s))

    def do_final(self, prop, who, sec, s, env, o):
        kw = split_kw(o.text, ("when",))
        m = re.match(r"(\w+)\s*\[(.*?)\]\s*=(?!=)\s*(.*)$", split_eq(kw[""]))
        item, keys, val = m.group(1), m.group(2), m.group(3)
        c = B.AND(s.ok, self.parse(env, sec, kw["when"], "cond")) if kw.get("when") else s.ok
        ks = self.parse(env, sec, f"{item}[{unq(keys)}]").a[1:]
        want = self.parse(env, sec, unq(val))
        got = self.final_of(s, item, ks, c)
        if not same(got, want, c):
            self.v(prop, f"{who}:final:{item}[{unq(keys)}]" + (":" + kw["when"] if kw.get("when") else ""),
                   f"after `{sec.name}` succeeds{' when ' + kw['when'] if kw.get('when') else ''}, {item}[{unq(keys)}] should be {unq(val)}; it is {show(restrict(got, c))[:500]}",
                   self.where(s))

    def final_of(self, s, item, ks, c):
        """value of the cell on exit; keys may be written differently but equal under c"""
        v = s.st.mem.get(("S", item, tuple(k.id for k in ks)))
        if v is None:
            for k, x in s.st.mem.items():
                if k[0] == "S" and k[1] == item and len(k[2]) == len(ks) and all(same(terms._all[i], y, c) for i, y in zip(k[2], ks)):
                    if restrict(x, c) is not restrict(mk("get", item, *[terms._all[i] for i in k[2]]), c):
                        return x
        return v if v is not None else mk("get", item, *ks)

    def loopsrc(self, e):
        return [flow.strip_seq(x.src)[0] for x in e.loops if x.kind != "callback"]

    def effline(self, env, sec, o):
        kw = split_kw(o.text, ("when", "in"))
        src = [self.parse(env, sec, x) for x in split_top(kw["in"])] if kw.get("in") else []
        c = self.parse(env, sec, kw["when"], "cond") if kw.get("when") else TRUE
        for i, x in enumerate(src):
            src[i], g = flow.strip_seq(x)
            c = B.AND(c, g)
        return kw[""], src, c

    def more(self, s, src):
        g = TRUE
        for x in src:
            g = B.AND(g, s.fl.src_elem(x, flow.State(TRUE, {}))[0])
        # what holds for this element holds for some element
        for v in B.support(s.ok):
            t = atom_term(v)
            if t.op == "any" and t.a[0] in src:
                g = B.AND(g, B.OR(B.NOT(t.a[1]), B.var(v)))
        return g

    def match_effects(self, s, effs, want_args, src, c):
        """-> [(effect, guard under which it is the stated one)]"""
        out = []
        for e in effs:
            ls = self.loopsrc(e)
            if len(ls) != len(src):
                continue
            if not all(x is not None and (x is y or same(x, y, e.pc)) for x, y in zip(ls, src)):
                continue
            g = B.AND(e.pc, s.ok, c)
            if g == FALSE:
                continue
            if len(e.args) == len(want_args) and all(same(x, y, g) for x, y in zip(e.args, want_args)):
                out.append((e, g))
        return out

    def parse_eff(self, env, sec, o):
        """-> (kind, text, [(name, arguments, sources, condition)]): an effect over several lists one after the other is one per list"""
        t, src, c = self.effline(env, sec, o)
        if o.kind in ("call", "runs"):
            m = re.match(r"([\w:]+)\s*\((.*)\)$", t, re.S)
            if callable(env.get(m.group(1))):
                x = self.parse(env, sec, t)
                name, args = x.a[0], list(x.a[1:])
            else:
                name, args = m.group(1), [self.parse(env, sec, x) for x in split_top(m.group(2))]
        elif o.kind == "event":
            name, args = None, [self.parse(env, sec, "Event::" + t)]
        elif o.kind == "put":
            m = re.match(r"(\w+)\s*\[(.*?)\]\s*=(?!=)\s*(.*)$", split_eq(t))
            name, args = m.group(1), list(self.parse(env, sec, f"{m.group(1)}[{unq(m.group(2))}]").a[1:]) + [self.parse(env, sec, unq(m.group(3)))]
        else:
            g = self.parse(env, sec, t)
            name, args = g.a[0], list(g.a[1:])
        return t, [(name, a, ls, g) for a, ls, g in split_lists(args, src, c)]

    def do_effect(self, prop, who, sec, s, env, o, what):
        t, lines = self.parse_eff(env, sec, o)
        what = what.format(t)
        key = f"{who}:{o.kind}:{o.text}"
        for name, want, src, c in lines:
            effs = [e for e in s.effects if e.kind == KIND.get(o.kind, o.kind) and (name is None or (e.item if o.kind in ("put", "del") else e.name) == name)]
            ms = self.match_effects(s, effs, want, src, c)
            base = B.AND(s.ok, c, self.more(s, src), s.live)
            cov = B.OR(*[g for _, g in ms])
            if not bimp(base, cov):
                bad = B.AND(base, B.NOT(cov))
                self.v(prop, key, f"`{sec.name}` must perform {what}; it does not when {ce(bad)}. Found: " + "; ".join(
                    f"{e.name}({', '.join(show(restrict(a, B.AND(e.pc, s.ok) or 1))[:160] for a in e.args)}) [{'/'.join(show(x)[:60] if x is not None else '?' for x in self.loopsrc(e))}]" for e in effs[:4]),
                    self.where(s))
                return
            for i in range(len(ms)):
                for j in range(i):
                    d = B.AND(ms[i][1], ms[j][1])
                    if d != FALSE and norm_false(d) is False:
                        self.v(prop, key + ":twice", f"`{sec.name}` performs {what} more than once when {ce(d)}", self.where(s))
                        return

    def do_runs(self, prop, who, sec, s, env, o):
        """runs name(arguments, values of the watched storage items at that point) when cond; a helper that no longer
        exists has been folded into its caller, whose other obligations remain"""
        name = re.match(r"\w+", o.text).group(0)
        if not any(p.endswith("::" + name) and any(f["crate"] == s.f["crate"] for f in fs) for p, fs in self.fx.by_path.items()):
            return
        self.do_effect(prop, who, sec, s, env, o, "the steps of {}")

    def do_call(self, prop, who, sec, s, env, o):
        self.do_effect(prop, who, sec, s, env, o, "{}")

    def do_event(self, prop, who, sec, s, env, o):
        self.do_effect(prop, who, sec, s, env, o, "event {}")

    def do_put(self, prop, who, sec, s, env, o):
        self.do_effect(prop, who, sec, s, env, o, "write {}")

    def do_del(self, prop, who, sec, s, env, o):
        self.do_effect(prop, who, sec, s, env, o, "removal of {}")

    def do_charges(self, prop, who, sec, s, env, o):
        """charges W: what the call reports to have used, where it succeeds, is W; `charges declared`: it reports nothing else than declared"""
        def used(v):
            if v.op == "adt" and v.a[0].endswith("PostDispatchInfo"):
                v = terms.field(v, "actual_weight")
            return terms.NONE if v.op == "unit" or v.op == "tuple" and not v.a else v
        got = flow.liftmap(restrict(terms.vfield(s.ret, "Ok", "0"), s.ok), used)
        want = terms.NONE if o.text == "declared" else terms.some(self.parse(env, sec, o.text))
        if not same(got, want, s.ok):
            self.v(prop, f"{who}:charges:{o.text}", f"`{sec.name}` should report to have used {o.text}; it reports {show(restrict(got, s.ok))[:500]}", self.where(s))

    def do_returns(self, prop, who, sec, s, env, o):
        kw = split_kw(o.text, ("when",))
        want = self.parse(env, sec, kw[""])
        c = self.parse(env, sec, kw["when"], "cond") if kw.get("when") else TRUE
        c = B.AND(c, s.st.pc)
        ret = s.fl.deep(s.st, s.ret)
        if not same(ret, want, c):
            self.v(prop, f"{who}:returns:{o.text}", f"`{sec.name}` should return {o.text}; it returns {show(restrict(ret, c))[:500]}", self.where(s))

    def do_leaves(self, prop, who, sec, s, env, o):
        """value behind a `&mut` parameter on exit: leaves self = term [when cond]"""
        kw = split_kw(o.text, ("when",))
        m = re.match(r"(\w+)\s*=(?!=)\s*(.*)$", split_eq(kw[""]))
        want = self.parse(env, sec, unq(m.group(2)))
        c = self.parse(env, sec, kw["when"], "cond") if kw.get("when") else TRUE
        c = B.AND(c, s.st.pc)
        a = env[m.group(1)]
        got = s.st.mem.get(("C", a.id), a)
        if not same(got, want, c):
            self.v(prop, f"{who}:leaves:{o.text}", f"`{sec.name}` should leave {o.text}; it leaves {show(restrict(got, c))[:500]}", self.where(s))

    def do_owned(self, prop, who, sec, s, env, o):
        self.do_frame(prop, who, sec, s, env, o, o.n)

    def do_frame(self, prop, who, sec, s, env, o, only=None):
        """every other write, currency operation, event or call with effects is one the section states"""
        lines = {"call": [], "event": [], "put": [], "del": [], "final": [], "enter": []}
        skip = [x for x in o.text.split() if not x.startswith("within:")]
        inside = [x[len("within:"):] for x in o.text.split() if x.startswith("within:")]
        for x in sec.obl:
            if x.kind in ("call", "event", "put", "del", "runs"):
                lines[KIND.get(x.kind, x.kind)] += self.parse_eff(env, sec, x)[1]
            elif x.kind == "final":
                kw = split_kw(x.text, ("when",))
                m = re.match(r"(\w+)\s*\[(.*?)\]\s*=(?!=)\s*(.*)$", split_eq(kw[""]))
                ks = self.parse(env, sec, f"{m.group(1)}[{unq(m.group(2))}]").a[1:]
                c = self.parse(env, sec, kw["when"], "cond") if kw.get("when") else TRUE
                lines["final"].append((m.group(1), ks, c))
        for e in s.effects:
            if e.kind not in ("call", "event", "put", "del", "enter") or only is not None and not owns(e, only):
                continue
            if inside and any(x[0].split("::")[-1] in inside for x in e.stack):
                continue
            lbl = e.name if e.kind == "call" else f"{e.kind}:{e.item if e.kind in ("put", "del") else e.name}"
            if e.kind == "call" and PURE.match(e.name) or any(fnmatch.fnmatch(lbl, p) for p in skip):
                continue
            left = B.AND(e.pc, s.ok)
            if left == FALSE:
                continue
            ls = self.loopsrc(e)
            if e.kind in ("put", "del"):
                # judged by the value the cell ends with
                nk = len(e.args) - (1 if e.kind == "put" else 0)
                for item, ks, c in lines["final"]:
                    if item == e.item and len(ks) == nk and all(same(x, y, left) for x, y in zip(e.args[:nk], ks)):
                        left = FALSE
                        break
                if left == FALSE:
                    continue
                if not ls:
                    v = s.st.mem.get(("S", e.item, tuple(k.id for k in e.args[:nk])))
                    if v is not None and same(v, mk("get", e.item, *e.args[:nk]), left):
                        continue
            for name, args, src, c in lines[e.kind]:
                if e.kind in ("put", "del") and name != e.item or e.kind in ("call", "enter") and name != e.name:
                    continue
                if len(src) != len(ls) or not all(x is not None and (x is y or same(x, y, e.pc)) for x, y in zip(ls, src)):
                    continue
                g = B.AND(left, c)
                if g != FALSE and len(args) == len(e.args) and all(same(x, y, g) for x, y in zip(e.args, args)):
                    left = B.AND(left, B.NOT(c))
            if left != FALSE and norm_false(left) is False:
                tgt = e.item if e.kind in ("put", "del") else e.name
                self.v(prop, f"{who}:frame:{e.kind}:{tgt}",
                       f"`{sec.name}` also performs {e.kind} {e.name if e.kind != 'put' else ''} {e.item or ''}({', '.join(show(restrict(a, left))[:200] for a in e.args)}) "
                       f"in [{'/'.join(show(x)[:80] if x is not None else '?' for x in ls)}], which no obligation of this function states; when {ce(left)}", site(e.site))

    def do_nopanic(self, prop, who, sec, s, env, o):
        allow = o.text.split()
        for pc, msg, site_, loops in s.fl.panics:
            if any(a in msg for a in allow) or "Pointer" in msg:
                continue
            if norm_false(pc) is not False:
                continue
            if impossible(pc):
                continue
            self.v(prop, f"{who}:panic:{msg}", f"`{sec.name}` can panic ({msg}) when {ce(pc)}", site(site_))

    def do_order(self, prop, who, sec, s, env, o):
        """order A before B: on no path does a call to A follow a call to B"""
        a, b = o.text.split(" before ")
        named = lambda n: [e for e in s.effects if (e.item if ":" in n and e.kind == n.split(":")[0] and "::" not in n else e.name) == (n.split(":")[1] if ":" in n and "::" not in n else n)]
        xs, ys = named(a.strip()), named(b.strip())
        for x in xs:
            for y in ys:
                if y.idx < x.idx and norm_false(B.AND(x.pc, y.pc, s.ok)) is False:
                    self.v(prop, f"{who}:order:{o.text}", f"`{sec.name}` performs {b} before {a} when {ce(B.AND(x.pc, y.pc, s.ok))}", site(x.site))
                    return

    def do_together(self, prop, who, sec, s, env, o):
        """together A B: whichever of A and B happens for an element happens in the same turn of the same loop"""
        a, b = o.text.split()
        named = lambda n: [e for e in s.effects if (e.item if ":" in n and e.kind == n.split(":")[0] and "::" not in n else e.name) == (n.split(":")[1] if ":" in n and "::" not in n else n)]
        xs, ys = named(a), named(b)
        for x in xs:
            if not any(len(x.loops) == len(y.loops) and all(p is q for p, q in zip(x.loops, y.loops)) for y in ys):
                self.v(prop, f"{who}:together:{o.text}", f"`{sec.name}` performs {a} in a loop that does not perform {b}", site(x.site))
                return

    def do_nonzero(self, prop, who, sec, s, env, o):
        """nonzero F n: argument n of every call of F is not zero (F panics on zero)"""
        f, n = o.text.split()
        for e in s.effects:
            if e.kind == "call" and e.name == f:
                bad = B.AND(e.pc, eq(e.args[int(n)], int_(0)), s.live if e.loops else TRUE)
                if norm_false(bad) is False:
                    self.v(prop, f"{who}:nonzero:{o.text}", f"`{sec.name}` can call {f} with zero as argument {n}, which panics; e.g. when {ce(bad)}", site(e.site))

    def do_nothing(self, prop, who, sec, s, env, o):
        pass


def split_lists(args, src, c):
    for i, l in enumerate(src):
        if l.op == "concat":
            out = []
            for p in l.a:
                q, g = flow.strip_seq(p)
                sub = lambda t: flow.subst(flow.subst(t, elem(l), elem(p), {}), mk("more", l), mk("more", q), {})
                out += split_lists([sub(a) for a in args], [sub(x) if x is not l else q for x in src], B.AND(g, sub(boolt(c)).a[0]))
            return out
    return [(args, src, c)]


class Given:
    """a summary seen only where g holds"""

    def __init__(self, s, g):
        self.f, self.fx, self.fl, self.args, self.ret, self.effects, self.is_result = s.f, s.fx, s.fl, s.args, s.ret, s.effects, getattr(s, "is_result", False)
        self.ok = B.AND(s.ok, g)
        self.given = g
        self.live = s.live
        self.st = s.st.copy(B.AND(s.st.pc, g))


def place(f):
    """where the body starts: the span of a function written inside a pallet macro is the macro's"""
    ls = [t[2] for b in f["blocks"] if b for t in b["s"] if len(t) > 2 and isinstance(t[2], list) and len(t[2]) > 1 and t[2][0] == f["span"][0] and t[2][1] > f["span"][1]]
    return min(ls, key=lambda x: x[1]) if ls else f["span"]


def site(x):
    return "%s:%s" % (x[0], x[1]) if x and len(x) > 1 else None


def impossible(pc):
    return False


def norm_false(d):
    return True if spec.norm(d) == FALSE else False


def ce(b):
    """one satisfying assignment of a condition, as the shortest readable conjunction"""
    cs = B.cubes(b, 1)
    if not cs:
        return "never"
    return " & ".join(("" if p else "!") + show(atom_term(v))[:140] for v, p in cs[0])[:900]


def split_top(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def split_eq(s):
    """protect nested brackets of the key so that `Item[keys] = value` splits at the right bracket"""
    m = re.match(r"(\w+)\s*\[", s)
    if not m:
        return s
    d, i = 0, m.end() - 1
    for j in range(i, len(s)):
        if s[j] in "[({":
            d += 1
        elif s[j] in "])}":
            d -= 1
            if d == 0:
                inner = s[i + 1:j].replace("[", "\x01").replace("]", "\x02")
                return s[:i + 1] + inner + s[j:]
    return s


def unq(s):
    return s.replace("\x01", "[").replace("\x02", "]")
