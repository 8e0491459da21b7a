"""Rules that are not stated in the .spec files."""
import os
import re

from . import alias, build, codec, flow, rules, spec, weights
from .terms import *


def run(prop, c):
    return [v for f in RULES.get(prop, ()) for v in f(prop, c)]


def tuple_handlers(prop, c):
    """every member of a tuple of slash handlers is called once, in order, with the account and the amount"""
    out = []
    n = 0
    for f in c.fx.find("on_slash_vesting", "on_slash"):
        m = re.match(r"on_slash_vesting::<\((.*?)\) as ", f["path"])
        if not m:
            continue
        n += 1
        c.stats["obligations"] += 1
        names = [x.strip() for x in m.group(1).split(",") if x.strip()]
        s = spec.Summary(c.fx, f)
        got = [e for e in s.effects if e.kind == "call" and e.name.endswith("::on_slash")]
        want = [mk("arg", 0), mk("arg", 1)]
        if [e.name for e in got] != [x + "::on_slash" for x in names] or any(list(e.args) != want or e.pc != TRUE or e.loops for e in got):
            out.append(rules.Viol(prop, "on_slash_vesting::on_slash:tuple", f"the slash handler of a tuple of {len(names)} must call each of its members once with the account and the amount; it calls "
                                       + ", ".join(f"{e.name}({', '.join(show(a)[:40] for a in e.args)})" for e in got[:6]), rules.place(f)))
            break
    if n < 2:
        out.append(rules.Viol(prop, "on_slash_vesting::on_slash:tuple:missing", "no slash handler for tuples was found", None))
    return out


PANICFREE = ["pallet_democracy", "pallet_elections_phragmen", "pallet_linear_release", "pallet_proxy_bonding", "pallet_dispenser"]


def no_panic(prop, c):
    """no call, block hook or exported handler has a path that ends in a panic"""
    out, seen = [], set()
    for crate in PANICFREE:
        fs = c.entries(crate) if crate in c.fx.crates else ()
        if crate not in c.fx.crates:
            continue
        if not fs:
            out.append(rules.Viol(prop, f"{crate}:missing", f"no call of {crate} was found", None))
        for f in fs:
            s = c.summary(f)
            c.stats["functions"][f["path"]] = rules.site(rules.place(f))
            c.stats["obligations"] += 1
            for pc, msg, sp, loops in s.fl.panics:
                c.stats["call_sites"] += 1
                if "Pointer" in msg:  # checks of the compiler's own on every dereference in a debug build
                    continue
                left = found_in(pc, s.fl.zeros)
                if left == FALSE or rules.norm_false(left) or debug_only(sp):
                    continue
                k = (f["path"].split("::")[-1], msg)
                if k in seen:
                    continue
                seen.add(k)
                out.append(rules.Viol(prop, f"{crate}::{k[0]}:panic:{msg}", f"`{k[0]}` panics ({msg.replace('assert ', '')}) when {rules.ce(left)}", where(sp)))
    return out


def where(sp):
    """the innermost place in the pallets from which the panic is reached"""
    at = [x[1][1] for x in sp[1] if x[1][1]] + [sp[0]]
    own = [x for x in at if x and not str(x[0]).startswith("/")]
    return rules.site(own[-1] if own else sp[0])


def found_in(pc, zeros):
    """pc without the cases that cannot be: a position found in a list lies within it, neither is the launch period nor the number
    of votes there are zero, and a value that a loop never sets to zero is zero only if it was before the loop"""
    for v in sorted(B.support(pc), reverse=True):
        t, x = atom_term(v), B.var(v)
        if t.op == "lt" and inside(t.a[0], t.a[1]):
            pc = B.constrain(pc, x)
        elif t.op == "lt" and inside(t.a[1], t.a[0]) or t.op == "eq" and int_(0) in t.a and any(u.op == "cfg" and u.a[0] == "LaunchPeriod" or electorate(u) for u in t.a):
            pc = B.constrain(pc, B.NOT(x))
        elif t.op == "eq" and int_(0) in t.a and any(u in zeros for u in t.a):
            z = next(zeros[u] for u in t.a if u in zeros)
            pc = B.AND(pc, B.OR(B.NOT(x), found_in(z, zeros)))
    return pc


def inside(i, n):
    """a position in a list of n elements"""
    if i.op in ("pos", "bspos", "bsins", "ins"):
        return n is flow.length(i.a[0])
    if i.op == "fld" and i.a[0].op == "pick":
        # the element picked from a list of positions, each beside what the list has there
        l = next((x for x in i.a[0].a if hasattr(x, "op") and x.op == "seq"), None)
        return l is not None and l.a[2].op == "tuple" and str(i.a[1]).isdigit() and inside(l.a[2].a[int(i.a[1])], n)
    return False


def electorate(t):
    """the square root of what there is to vote with"""
    return t.op == "call" and t.a[0].endswith("integer_sqrt") and any(u.op == "call" and u.a[0].endswith("get_electorate") for u in t.a[1:])


def debug_only(sp):
    """written in a debug_assert!, which the shipped build does not contain"""
    if not sp or not sp[0] or len(sp[0]) < 2:
        return False
    file, line = sp[0][:2]
    try:
        with open(os.path.join(build.REPO, file)) as fh:
            ls = fh.read().split("\n")
    except OSError:
        return False
    return 0 < line <= len(ls) and re.match(r"\s*debug_assert(_eq|_ne)?!", ls[line - 1]) is not None


STORED = ["pallet_democracy", "pallet_elections_phragmen"] + build.AUXCR
# not the funding pallet, whose whole calls are beyond the engine's memory, nor the staking pallet, whose lists of delegations and
# delegators' own lists say the same twice: that no delegator is in a list he does not know of is not decided
ALIASED = ["pallet_democracy", "pallet_elections_phragmen", "pallet_linear_release", "pallet_proxy_bonding", "pallet_dispenser"]


WEIGHED = ["pallet_democracy", "pallet_elections_phragmen", "pallet_linear_release", "pallet_dispenser", "pallet_funding"]


RULES = {"C34": [tuple_handlers], "C63": [lambda prop, c: codec.stored(prop, c, STORED)],
         "C68": [lambda prop, c: weights.run(prop, c, WEIGHED)], "C66": [lambda prop, c: alias.run(prop, c, ALIASED)], "C67": [no_panic]}
CRATES = {"C63": set(STORED), "C66": set(ALIASED), "C67": set(PANICFREE), "C68": set(WEIGHED)}  # crates a property needs besides those of its .spec sections
