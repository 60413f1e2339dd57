#!/usr/bin/env python3
"""Decides one property of /repo's current tree by static analysis.

usage: check.py ID            exit 0: held; exit 1 + VIOLATION line: broken
"""
import fnmatch
import hashlib
import json
import os
import signal
import sys
import threading
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
threading.stack_size(512 * 1024 * 1024)

REPO = os.environ.get("VERIF_REPO", "/repo")


class Late(Exception):
    pass


def limited(seconds, f, *a):
    """f(*a) within a time limit"""
    def h(*_):
        raise Late()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(seconds)
    try:
        return f(*a)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def select(J, p):
    """functions of the property with the aspects that matter"""
    from vf.judge import short
    sel, empty = {}, []
    names = {short(q): q for q in J.rf}
    for pat in p["funcs"]:
        pat, _, asp = pat.partition(":")
        hits = fnmatch.filter(names, pat)
        if not hits:
            empty.append(pat)
        for h in hits:
            q = names[h]
            a = set(asp.split(",")) if asp else None
            if q in sel:
                sel[q] = None if sel[q] is None or a is None else sel[q] | a
            else:
                sel[q] = a
    return sel, empty


def known_findings():
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    for line in open(path, encoding="utf-8"):
        line = line.strip()
        if line.startswith("known: "):
            body = line[len("known: "):]
            pid, key, what = body.split(" ", 2)
            out[(pid.split("=", 1)[1], key.split("=", 1)[1])] = what
    return out


def key_of(o):
    return hashlib.sha256(f"{o.name}|{o.detail}".encode()).hexdigest()[:12]


def run(pid):
    t0 = time.time()
    from vf import props, rules
    from vf.judge import Judge, class_obs, STABLE, short
    from vf.equiv import Ob, SAT, VIO, UND
    p = next((x for x in props.P if x["id"] == pid), None)
    if p is None:
        print("unknown property", pid)
        return 2
    try:
        J = Judge(os.path.join(HERE, "ref"), os.path.join(REPO, "src"))
    except (OSError, SyntaxError) as e:
        print("cannot read the tree:", e)
        return 2
    sel, empty = select(J, p)
    if empty:
        print("patterns without a reference definition:", empty)
        return 2
    gone = [q for q in sel if q in STABLE and q not in J.af]
    if gone:
        print("public anchors vanished:", gone)
        return 2
    obs, broken = [], []
    for q in sorted(sel):
        try:
            r = limited(int(max(5, min(120, 600 - time.time() + t0))), J.judge, q)
        except Exception as e:  # the analysis gives no verdict on this function
            o = Ob(short(q), UND, "", f"not analysed: {type(e).__name__} {e}")
            o.aspect, o.qual = "ret", q
            r = [o]
            broken.append(q)
        obs += [o for o in r if sel[q] is None or o.aspect in sel[q]]
    for c in p["classes"]:
        obs += class_obs(J, "valor_lite." + c)
    rule_stats = []
    for name in p["rules"]:
        rule = getattr(rules, name)
        try:
            ro, n = limited(200, rule, J)
        except Exception as e:
            ro, n = [Ob(f"rule {name}", UND, "", f"not analysed: {type(e).__name__} {e}")], 0
            broken.append("rule " + name)
        for o in ro:
            o.aspect = "rule"
        obs += ro
        rule_stats.append((name, n, len(ro)))
        if n == 0 and "rule " + name not in broken:
            print(f"rule {name} matched no site")
            return 2
    sat = [o for o in obs if o.verdict == SAT]
    und = [o for o in obs if o.verdict == UND]
    vio, seen = [], set()
    for o in obs:
        if o.verdict == VIO and (o.name, o.detail) not in seen:
            seen.add((o.name, o.detail))
            vio.append(o)
    kf = known_findings()
    fresh = []
    for o in vio:
        k = (pid, key_of(o))
        if k in kf:
            print(f"KNOWN-FINDING: property={pid} {kf[k]}")
        else:
            fresh.append(o)
    print(f"{pid} {p['title']}")
    print(f"  analysed {len(sel)} functions, {len(p['classes'])} class declarations of {len(J.repo.modules)} modules; "
          f"obligations: {len(sat)} satisfied, {len(und)} undecided, {len(vio)} violated")
    for n, sites, k in rule_stats:
        print(f"  rule {n}: {sites} sites, {k} obligations")
    for o in und[:40]:
        print(f"  undecided: {o.name} {o.where} {o.detail[:300]}")
    if not sat:
        print("nothing could be decided")
        return 2
    ev = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    rp = os.path.join(ev, "replay", pid + ".json")
    if fresh:
        with open(rp, "w") as f:
            json.dump({"property": pid, "title": p["title"], "violations": [
                {"obligation": o.name, "construct": o.where, "difference": o.detail, "key": key_of(o)} for o in fresh]}, f, indent=1)
    rec = {
        "property": pid,
        "tier": os.environ.get("VERIF_TIER", "quick"),
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "static analysis: normalised value flow (results, effects, raised errors, mutations) of every function the property rests on is compared with its reviewed definition, plus dedicated rules over the syntax tree and value flow; an obligation is violated only when aligned, fully interpreted constructs cannot be equal",
            "functions": len(sel),
            "class_declarations": len(p["classes"]),
            "modules": len(J.repo.modules),
            "obligations": len(obs),
            "satisfied": len(sat),
            "undecided": len(und),
            "violated": len(vio),
            "rules": {n: {"sites": s, "obligations": k} for n, s, k in rule_stats},
            "undecided_obligations": [f"{o.name}: {o.detail[:200]}" for o in und],
            "by_aspect": {a: sum(getattr(o, "aspect", "") == a for o in obs) for a in ("ret", "mut", "raise", "effect", "sig", "class", "rule")},
        },
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
        "violation_details": [{"obligation": o.name, "construct": o.where, "difference": o.detail[:2000], "replay": "evidence/replay/" + pid + ".json"} for o in fresh],
    }
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(rec, f, indent=1)
    if fresh:
        for o in fresh[:10]:
            print(f"  violated: {o.name}\n    at {o.where}\n    {o.detail[:1200]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def main():
    if len(sys.argv) != 2:
        print(__doc__)
        return 2
    return run(sys.argv[1])


if __name__ == "__main__":
    sys.exit(main())
