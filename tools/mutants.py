#!/usr/bin/env python3
"""mutants.py <worker> <workers> <out.jsonl> [file…]: small systematic edits of the three compiled pallets, each built and
analysed in a scratch copy mounted over /repo; reports which ones no rule notices (to be read by a person: some change nothing).
Run from a copy of /verif; MUT_W names the scratch repository."""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUT_W", "/tmp/mr")
if os.environ.get("MUT_NS") != "1":
    if not os.path.exists(W + "/.git"):
        subprocess.check_call(["git", "clone", "-q", "/repo", W])
    os.environ["MUT_NS"] = "1"
    os.execvp("unshare", ["unshare", "-m", "bash", "-c", f"mount --bind {W} /repo && exec python3 {' '.join(sys.argv)}"])
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
FILES = ["pallets/democracy/src/lib.rs", "pallets/democracy/src/types.rs", "pallets/democracy/src/vote.rs", "pallets/democracy/src/vote_threshold.rs",
         "pallets/democracy/src/conviction.rs", "pallets/elections-phragmen/src/lib.rs", "pallets/on-slash-vesting/src/lib.rs"]
SWAPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "),
         (r"saturating_add", "saturating_sub"), (r"saturating_sub", "saturating_add"), (r"saturating_mul", "saturating_add"), (r"saturating_accrue|saturating_inc", "saturating_dec"),
         (r"checked_add", "checked_sub"), (r"checked_sub", "checked_add"), (r"checked_mul", "checked_div"), (r"checked_div", "checked_mul"),
         (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"is_some\(", "is_none("), (r"is_none\(", "is_some("), (r"is_ok\(", "is_err("), (r"is_err\(", "is_ok("),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bayes\b", "nays"), (r"\bnays\b", "ayes"), (r"\.aye\b", ".nay"), (r"\.nay\b", ".aye"),
         (r"\bAye\b", "Nay"), (r"\bNay\b", "Aye"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "1"), (r"= !", "= "), (r"!(?=[a-zA-Z])(?!=)", ""),
         (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\bOk\(_\)", "Err(_)"), (r"\bErr\(i\)", "Ok(i)"), (r"\bunwrap_or_default\(\)", "unwrap_or(1u32.into())"),
         (r"Some\(([a-z_]+)\)", "None"), (r"free_balance|total_balance", "minimum_balance"), (r"max_turnout", "electorate"), (r"\.take\(", ".skip("), (r"\.skip\(", ".take("),
         (r"\.filter\(", ".skip_while("), (r"ensure_root", "ensure_signed"), (r"continue", "break"), (r"break", "continue"), (r"swap_remove\(", "remove("),
         (r"\.insert\(([^,]+), ([a-z_.]+)\)", r".insert(0, \2)"), (r"\(&([a-z_.]+), &([a-z_.]+)", r"(&\2, &\1"), (r"\(([a-z_]+), ([a-z_]+)\)", r"(\2, \1)"),
         (r"last\(\)", "first()"), (r"first\(\)", "last()"), (r"reserve\b", "unreserve"), (r"freeze\b", "extend_freeze"), (r"thaw", "thaw"), (r"::get\(\)\)", "::get() + 1u32.into())")]
SKIP = re.compile(r"^\s*(//|#\[|use |log::|debug_assert|defensive|pub type |type |const NAME|target:|\"|mod |pub mod )|[Ww]eight|fn integrity_test|Benchmark|reads_writes|STORAGE_VERSION")


def mutants(path):
    ls = open("/repo/" + path).read().split("\n")
    out = []
    end = next((i for i, l in enumerate(ls) if l.strip() == "mod tests {"), len(ls))
    i = 0
    while i < end:
        l = ls[i]
        if SKIP.search(l) or not l.strip():
            i += 1
            continue
        code = l.split(" //")[0]
        for a, b in SWAPS:
            for m in re.finditer(a, code):
                if "fn " in code and a.strip() not in ("x",) or re.match(r"\s*(impl|where|struct|pub struct|enum|trait)", code):
                    continue
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if n != code:
                    out.append((i, i, n, f"{m.group(0)} => {m.expand(b)}"))
        ind = len(l) - len(l.lstrip("\t"))
        body = l.strip()
        m = re.match(r"^(\s*(?:\} else )?if )(?!let)(.*)( \{)$", code)
        if m:
            for b in ("true", "false"):
                out.append((i, i, m.group(1) + b + m.group(3), f"if {m.group(2)} => {b}"))
        if ind >= 2 and not re.match(r"(let |return|\}|\)|\.|\|)", body):
            j = i
            while j < end and not (ls[j].rstrip().endswith(";") and (len(ls[j]) - len(ls[j].lstrip("\t"))) == ind) and j - i < 12:
                if j > i and (len(ls[j]) - len(ls[j].lstrip("\t"))) < ind:
                    j = i + 99
                    break
                j += 1
            if j - i < 12 and j < end and not any(x in "\n".join(ls[i:j + 1]) for x in ("type ", "const ")) and not re.match(r"(pub |fn |for |if |match |while |loop)", body):
                out.append((i, j, "", "deleted: " + " ".join(x.strip() for x in ls[i:j + 1])[:120]))
        if code.rstrip().endswith("?;") and not body.startswith("let "):
            out.append((i, i, code.rstrip()[:-2] + ".ok();", "error ignored: " + body))
        i += 1
    return ls, out


def main():
    k, n, outp = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or FILES
    if k < 0:
        print({f: len(mutants(f)[1]) for f in files})
        return
    known = [l.split(" key=", 1)[1].split(" :: ")[0] for l in open(HERE + "/known-findings.txt") if l.startswith("finding:")]
    done = set()
    if os.path.exists(outp):
        done = {json.loads(l)["id"] for l in open(outp)}
    fh = open(outp, "a")
    for f in files:
        ls, ms = mutants(f)
        crate = f.split("/")[1].replace("-", "_")
        spec = {"democracy": "democracy", "elections_phragmen": "elections", "on_slash_vesting": "onslash"}[crate]
        src = "\n".join(ls)
        for x, (i, j, new, what) in enumerate(ms):
            mid = f"{f}:{i + 1}:{x}"
            if x % n != k or mid in done:
                continue
            t = ls[:i] + ([new] if new else []) + ls[j + 1:]
            open("/repo/" + f, "w").write("\n".join(t))
            r = {"id": mid, "what": what, "line": ls[i].strip()[:160], "new": new.strip()[:160]}
            p = subprocess.run(["python3", "-c", "from sa import build; build.extract_now(True, False)"], cwd=HERE, capture_output=True, text=True)
            if p.returncode:
                r["status"] = "nobuild"
            else:
                try:
                    o = subprocess.run(["python3", "-m", "sa.try", HERE + "/.cache/facts", "all", f"{HERE}/specs/{spec}.spec"], cwd=HERE, capture_output=True, text=True,
                                       timeout=300)
                    vs = [l[5:].strip() for l in o.stdout.splitlines() if l.startswith("   ! ")]
                    vs = [v for v in vs if not any(v.startswith(q) for q in known)]
                    r["status"] = "caught" if vs else ("error" if o.returncode else "MISSED")
                    r["by"] = [v[:110] for v in vs[:4]]
                    if vs and all(":undecided" in v for v in vs):
                        r["status"] = "undecided"
                except subprocess.TimeoutExpired:
                    r["status"] = "timeout"
            fh.write(json.dumps(r) + "\n")
            fh.flush()
        open("/repo/" + f, "w").write(src)


main()
