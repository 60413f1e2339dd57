#!/usr/bin/env python3
"""Applies every planted bug to a scratch copy and runs its property's check (or all with --all)."""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = "--all" in sys.argv
want = [a for a in sys.argv[1:] if not a.startswith("-")]
ids = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]

def one(d):
    name = os.path.basename(d)
    pid = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.run(f"git -C /repo archive HEAD src | tar x -C {w}", shell=True, check=True)
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + w, d + "/patch.diff"], cwd="/", capture_output=True, text=True)
        if r.returncode:
            return name, pid, "patch: " + r.stderr, []
        caught, out = [], ""
        for p in (ids if ALL else [pid]):
            # evidence is written next to check.py: run from a copy
            c = subprocess.run([sys.executable, w + "/v/check.py", p], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w)) if os.path.isdir(w + "/v") else None
            if c is None:
                os.makedirs(w + "/v")
                for x in ("check.py", "known-findings.txt"):
                    shutil.copy(os.path.join(HERE, x), w + "/v/")
                for x in ("vf", "ref"):
                    os.symlink(os.path.join(HERE, x), w + "/v/" + x)
                c = subprocess.run([sys.executable, w + "/v/check.py", p], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w))
            if c.returncode == 1:
                caught.append(p)
            if p == pid:
                out = c.stdout + c.stderr
        return name, pid, out, caught
    finally:
        shutil.rmtree(w)

ds = sorted(d for d in glob.glob(os.path.join(HERE, "seeded", "*")) if not want or os.path.basename(d) in want)
n = 0
with ThreadPoolExecutor(8) as ex:
    for name, pid, out, caught in ex.map(one, ds):
        n += pid in caught
        print(name, pid, "caught" if pid in caught else "MISSED", "by", *caught)
        if "-v" in sys.argv or pid not in caught:
            print("   ", out[:9000].replace("\n", "\n    "))
print(n, "of", len(ds))
