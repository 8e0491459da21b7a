#!/usr/bin/env python3
"""writes specs/onslash_tuples.spec: one section for each tuple size OnSlash is implemented for"""
import os
o = ["# generated by tools/tuples.py: the implementation of OnSlash for tuples of every size", "crate on_slash_vesting", ""]
for n in range(31):
    ty = "()" if n == 0 else "(" + ", ".join(f"TupleElement{i}" for i in range(n)) + ("," if n == 1 else "") + ")"
    o.append(f"fn{'?' if n > 5 else ''} on_slash in <{ty} as(account, amount)")
    o += [f"  C34 call TupleElement{i}::on_slash(account, amount)" for i in range(n)]
    o.append("  C34 allows\n  C34 frame\n")
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/specs/onslash_tuples.spec", "w").write("\n".join(o))
