#!/usr/bin/env python3
"""Behaviour-preserving edits: every one must leave the whole-package judgement free of violations.

Edits are applied to the docstring-free unparsed text of a module in a scratch copy.
usage: refactor.py [-t] [-v] [names]    -t: also run the repository's tests on the edited copy
"""
import ast, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from refactors import ALL

def strip(path):
    t = ast.parse(open(path).read())
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            b = n.body
            if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                n.body = b[1:] or [ast.Pass()]
    return ast.unparse(t) + "\n"

def squeeze(src):
    """the raw text without docstrings and blank lines"""
    kill = set()
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and len(n.body) > 1:
            kill.update(range(n.body[0].lineno - 1, n.body[0].end_lineno))
    return "\n".join(l for i, l in enumerate(src.split("\n")) if i not in kill and l.strip()) + "\n"

RUN = '''
import sys, threading, signal
sys.path.insert(0, %r); sys.setrecursionlimit(30000); threading.stack_size(512*1024*1024)
def main():
    from vf.judge import Judge
    from vf.equiv import SAT, VIO, UND
    from vf import rules
    import vf.props as props
    J = Judge(%r, sys.argv[1] + "/src")
    n = 0
    ch = J.changed()
    todo = set(ch)
    for q in J.rf:
        if q in J.af and (q in ch or q not in J.common): todo.add(q)
    for q in sorted(todo):
        try: r = J.judge(q)
        except Exception as e:
            print("UND", q, "EXC", type(e).__name__, e); continue
        for o in r:
            if o.verdict != SAT: print("VIO" if o.verdict == VIO else "UND", o.name, o.detail.split(" :: ")[0][:%d])
    names = sorted({x for p in props.P for x in p["rules"]})
    for n in names:
        try: ro, k = getattr(rules, n)(J)
        except Exception as e:
            print("UND rule", n, type(e).__name__, e); continue
        for o in ro:
            if o.verdict != SAT: print("VIO" if o.verdict == VIO else "UND", "rule", n, o.name, o.detail[:300])
t = threading.Thread(target=main); t.start(); t.join()
'''

def one(item):
    name, file, edits = item
    w = tempfile.mkdtemp(prefix="refac")
    try:
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {w}", shell=True, check=True)
        p = f"{w}/src/valor_lite/{file}"
        s = strip(p)
        if any(old not in s for old, _ in edits):
            s = open(p).read()
            if any(old not in s for old, _ in edits):
                s = squeeze(s)
        for old, new in edits:
            if s.count(old) < 1:
                return name, "EDIT NOT FOUND " + old[:80]
            s = s.replace(old, new)
        try:
            ast.parse(s)
        except SyntaxError as e:
            return name, f"EDIT SYNTAX {e}"
        open(p, "w").write(s)
        if "-t" in sys.argv:
            d = file.split("/")[0].replace("cache", "common")
            r = subprocess.run(f". /opt/vp/env.sh; cd {w} && PYTHONPATH={w}/src $PY -m pytest -q -x -p no:cacheprovider tests/{d} 2>&1 | tail -5", shell=True, capture_output=True, text=True)
            if "failed" in r.stdout or "error" in r.stdout.lower():
                return name, "EDIT TESTS FAIL " + r.stdout
        r = subprocess.run([sys.executable, "-c", RUN % (HERE, os.path.join(HERE, "ref"), 3000 if "-v" in sys.argv else 900), w], capture_output=True, text=True)
        return name, r.stdout + r.stderr
    finally:
        shutil.rmtree(w)

if __name__ == "__main__":
    want = [a for a in sys.argv[1:] if not a.startswith("-")]
    items = [x for x in ALL if not want or x[0] in want]
    c = {"clean": 0, "undecided": 0, "FALSE ALARM": 0, "bad edit": 0}
    with ThreadPoolExecutor(8) as ex:
        for name, out in ex.map(one, items):
            k = "bad edit" if out.startswith("EDIT") or "Traceback" in out else "FALSE ALARM" if "\nVIO" in "\n" + out else "undecided" if out else "clean"
            c[k] += 1
            print(name, k)
            if out:
                print("   ", out.strip().replace("\n", "\n    "))
    print(c)
