#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vf/props.py (run by hand, outputs are committed)."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf import props
from check import select, REPO
from vf.judge import Judge

J = Judge(os.path.join(HERE, "ref"), os.path.join(REPO, "src"))
lines, checks = [], []
for p in props.P:
    sel, empty = select(J, p)
    assert not empty, (p["id"], empty)
    files = sorted({J.rf[q].module.path.split("valor_lite/", 1)[1] for q in sel})
    files = ["src/valor_lite/" + f for f in files]
    assert len(p["title"]) <= 80, p["id"]
    assert len(re.findall(r"\.(?:\s|$)", p["statement"])) <= 3, p["id"]
    mech = [{"name": n, "where": "src/valor_lite/" + w if "/" in w and not w.startswith("src") else w} for n, w in p["mech"]]
    a = {"files": files, "mechanism": mech}
    if p["observe"]:
        a["observe_at"] = p["observe"]
    lines.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["q"]},
                  "why_tests_cant": p["why"], "anchors": a})
    tech = "static value-flow comparison of the deciding functions with reviewed definitions"
    if p["rules"]:
        tech += "; dedicated rules: " + ", ".join(r.replace("_", " ") for r in p["rules"])
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']}",
                   "technique": tech, "level": "other",
                   "level_note": f"Static: {len(sel)} functions and {len(p['classes'])} declarations are normalised (helpers inlined, loops, conditions and array expressions in canonical form) and their results, effects, raised errors and mutations compared with definitions reviewed against the statement (ref/). A difference is reported only when both sides are fully interpreted and provably unequal; anything else is listed as undecided in the evidence. Trusted: the review of the definitions, the modelled semantics of Python, NumPy and PyArrow operations, and third-party libraries."})
for n in props.NA:
    lines.append({"id": n["id"], "title": n["title"], "statement": n["statement"], "quantifier": {"over": n["over"], "text": n["q"]},
                  "why_tests_cant": n["why"], "anchors": {"files": n["files"], "mechanism": [{"name": a, "where": b} for a, b in n["mech"]]}})
    assert len(n["title"]) <= 80, n["id"]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in lines:
        f.write(json.dumps(x) + "\n")
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.exit(sys.version_info < (3, 10))\"", "checks": checks,
     "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in props.NA],
     "notes": "No hooks. Every check parses /repo/src on each run and needs only the Python standard library."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(lines), "properties,", len(checks), "checks")
