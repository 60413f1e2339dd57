#!/usr/bin/env python3
"""Applies each bug of tools/buglist.py to a scratch copy and runs its property's check.

usage: bugs.py [-v] [-t] [-a] [names]   -t: also run the task's tests; -a: run every check
"""
import json, os, shutil, subprocess, sys, tempfile, importlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from buglist import BUGS
ids = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]

STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "-t" in sys.argv else ()


def one(b):
    name, pid, file, edits = b
    w = tempfile.mkdtemp(prefix="bug")
    try:
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {w}", shell=True, check=True)
        files = {}
        for e in edits:
            f = e[2] if len(e) > 2 else file
            p = f"{w}/src/valor_lite/{f}"
            s = files.get(p) or open(p).read()
            if s.count(e[0]) < 1:
                return name, pid, "EDIT NOT FOUND " + e[0][:80], [], ""
            files[p] = s.replace(e[0], e[1], 1)
        for p, s in files.items():
            try:
                compile(s, p, "exec")
            except SyntaxError as x:
                return name, pid, f"EDIT SYNTAX {x}", [], ""
            open(p, "w").write(s)
        t = ""
        if "-t" in sys.argv:
            ds = {f[len(w) + 1:].split("/")[2] for f in files}
            ts = "tests/common tests/classification tests/object_detection tests/semantic_segmentation" if "cache" in ds else " ".join(sorted("tests/" + d for d in ds))
            r = subprocess.run(f". /opt/vp/env.sh; cd {w} && PYTHONPATH={w}/src $PY -m pytest -q -p no:cacheprovider --randomly-seed=1 --randomly-dont-reorganize -o junit_family=xunit2 --junitxml={w}/t.xml --ignore=tests/object_detection/test_regression.py {ts}", shell=True, capture_output=True, text=True)
            import xml.etree.ElementTree as E
            bad = []
            for c in E.parse(w + "/t.xml").iter("testcase"):
                n = c.get("classname") + "::" + c.get("name")
                if n in STABLE and any(x.tag in ("failure", "error") for x in c):
                    bad.append(n)
            t = f"tests fail {bad[0]}" if bad else "tests pass"
        os.makedirs(w + "/v")
        for x in ("check.py", "known-findings.txt"):
            shutil.copy(os.path.join(HERE, x), w + "/v/")
        for x in ("vf", "ref"):
            os.symlink(os.path.join(HERE, x), w + "/v/" + x)
        caught, out = [], ""
        for p in (ids if "-a" in sys.argv else [pid]):
            c = subprocess.run([sys.executable, w + "/v/check.py", p], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w))
            if c.returncode == 1:
                caught.append(p)
            elif c.returncode:
                out += f"exit {c.returncode}"
            if p == pid:
                out += c.stdout + c.stderr
                try:
                    ev = json.load(open(w + f"/v/evidence/{pid}.json"))
                    und = [u for u in json.dumps(ev).split('"') if "undecided" in u.lower()]
                    out += "\n".join(u[:1500] for u in und[:6])
                except OSError:
                    pass
        return name, pid, out, caught, t
    finally:
        shutil.rmtree(w)

if __name__ == "__main__":
    want = [a for a in sys.argv[1:] if not a.startswith("-")]
    items = [x for x in BUGS if not want or x[0] in want]
    n = 0
    with ThreadPoolExecutor(8) as ex:
        for name, pid, out, caught, t in ex.map(one, items):
            n += pid in caught
            print(name, pid, "caught" if pid in caught else "MISSED", *([out[:100]] if out.startswith("EDIT") else []), t, "by", *caught, flush=True)
            if "-v" in sys.argv:
                print("   ", out[:6000].replace("\n", "\n    "))
    print(n, "of", len(items))
