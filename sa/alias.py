"""Lost updates: an entry read under one key, changed under another, and written back under the first.

The summaries treat cells whose keys are written differently as different cells. Where the two keys may name the same entry, what was
written in between is lost when the first writes back a value computed from what it had read."""
from . import flow, rules, spec
from .rules import ce, norm_false, place, site
from .terms import B, FALSE, TRUE, eq, mk, vfield


def known(item, keys):
    """what the entry of a key never is: a voter who delegates to himself (C13 refuses it)"""
    if item == "VotingOf":
        return B.NOT(eq(keys[0], vfield(mk("get", item, *keys), "Delegating", "target")))
    return TRUE


def last_read(fl, p, q, item, keys):
    """the condition under which the entry is read again between q and p"""
    cell = ("S", item, tuple(k.id for k in keys))
    return B.OR(*[g for c, n, g in fl.reads if c == cell and q < n <= p])


def lost(s):
    """[(write, later write that loses it, condition)]"""
    out = []
    puts = [e for e in s.fl.effects if e.kind == "put" and e.args and len(e.args) > 1]
    for p in puts:
        keys = p.args[:-1]
        if not flow.mentions(p.args[-1], mk("get", p.item, *keys)):
            continue
        for q in s.fl.effects[:p.idx]:
            if q.kind not in ("put", "del") or q.item != p.item:
                continue
            k2 = q.args[:-1] if q.kind == "put" else q.args
            if len(k2) != len(keys) or list(k2) == list(keys):
                continue
            if p.since is not None:
                if q.idx < p.since:
                    continue
                again = FALSE
            else:
                again = last_read(s.fl, p.idx, q.idx, p.item, keys)
            same = B.AND(*[eq(a, b) for a, b in zip(keys, k2)])
            c = B.AND(p.pc, q.pc, B.NOT(again), same, s.ok, known(p.item, keys))
            if c != FALSE and norm_false(c) is False:
                out.append((q, p, c))
    return out


def run(prop, c, crates):
    out = []
    for crate in crates:
        if crate not in c.fx.crates:
            continue
        for f in c.entries(crate):
            s = c.summary(f)
            c.stats["functions"][f["path"]] = site(place(f))
            c.stats["obligations"] += 1
            c.stats["call_sites"] += sum(e.kind == "put" for e in s.fl.effects)
            name = f["path"].split("::")[-1]
            for q, p, cond in lost(s):
                out.append(rules.Viol(prop, f"{crate}::{name}:lost:{p.item}", f"`{name}` writes {p.item}[{', '.join(flow.show(k)[:60] for k in p.args[:-1])}] back from what it "
                                      f"read before it changed {q.item}[{', '.join(flow.show(k)[:60] for k in (q.args[:-1] if q.kind == 'put' else q.args))}], which may be the same entry: "
                                      f"when {ce(cond)}", site(p.site)))
                break
    return out
