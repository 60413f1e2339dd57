#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md (between the markers) from vf/props.py."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf import props, rules
from check import select, REPO
from vf.judge import Judge
J = Judge(os.path.join(HERE, "ref"), os.path.join(REPO, "src"))
out = []
for p in props.P:
    sel, _ = select(J, p)
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"- Decides: {len(sel)} functions" + (f", {len(p['classes'])} class declarations" if p["classes"] else "") + ": "
               + ", ".join(f"`{x}`" for x in p["funcs"]) + ".")
    for m in p["mech"]:
        out.append(f"- Mechanism: {m[0]} ({m[1]}).")
    for r in p["rules"]:
        out.append(f"- Rule `{r}`: {(getattr(rules, r).__doc__ or '').strip()}.")
    out.append(f"- Quantifier: {p['q']}. Tests: {p['why']}.\n")
for n in props.NA:
    out.append(f"### {n['id']} {n['title']}\n\nNot applicable: {n['reason']}.\n")
path = os.path.join(HERE, "DESIGN.md")
s = open(path).read()
a, b = "<!-- properties -->\n", "<!-- /properties -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(path, "w").write(s[:i] + "\n" + "\n".join(out) + "\n" + s[j:])
