"""Author's tool: build seeded/<id> from the table below, keep those that pass the suite and whose demo separates.
usage: seed.py [ID...]   (scratch copies under /tmp/w)"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed_table import BUGS
ROOT = "/verif/seeded"
PY = "/opt/venv/bin/python"
HEAD = """import sys, warnings
import numpy as np
warnings.simplefilter("ignore")
import ff
def bad(msg):
    print("property broken:", msg)
    sys.exit(1)
"""


def env(d):
    e = dict(os.environ, MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=d + "/src")
    return e


def one(b):
    i = b["id"]
    d = f"/tmp/w/{i}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("__pycache__"))
    for (f, old, new) in b["edits"]:
        p = f"{d}/src/ff/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            return i, f"edit does not match once: {s.count(old)} in {f}: {old[:50]!r}"
        open(p, "w").write(s.replace(old, new))
    patch = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
    out = f"{ROOT}/{i}"
    tmp = f"/tmp/w/{i}.demo"
    os.makedirs(tmp, exist_ok=True)
    open(tmp + "/demo.py", "w").write(HEAD + b["demo"].strip("\n") + "\n")
    open(tmp + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds on this input; non-zero: it is broken\nexport MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    r0 = subprocess.run(["bash", tmp + "/demo.sh"], cwd="/repo", env=env("/repo"), capture_output=True, text=True)
    r1 = subprocess.run(["bash", tmp + "/demo.sh"], cwd=d, env=env(d), capture_output=True, text=True)
    if r0.returncode != 0:
        return i, "demo fails on the unchanged tree: " + r0.stdout[-300:] + r0.stderr[-300:]
    if r1.returncode == 0:
        return i, "demo passes with the change"
    t = subprocess.run([PY, "-m", "pytest", "tests", "-m", "", "-q", "-x", "--maxfail=6", "-p", "no:cacheprovider", "--timeout=120", "-n0"]
                       if False else [PY, "-m", "pytest", "tests", "-m", "", "-q", "--maxfail=8", "-p", "no:cacheprovider", "--timeout=200"],
                       cwd=d, env=env(d), capture_output=True, text=True)
    fails = [l for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
    fails = [l for l in fails if "erformance" not in l]
    if fails or t.returncode not in (0, 1) or (t.returncode == 1 and "FAILED" not in t.stdout):
        return i, "tests fail: " + "; ".join(fails)[:400] + f" rc={t.returncode}"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + "/patch.diff", "w").write(patch)
    for n in ("demo.py", "demo.sh"):
        shutil.copy(tmp + "/" + n, out)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
    return i, "KEPT  demo: " + (r1.stdout.strip().splitlines() or r1.stderr.strip().splitlines() or ["?"])[-1][:150]


ids = sys.argv[1:]
todo = [b for b in BUGS if not ids or b["id"] in ids]
with ThreadPoolExecutor(7) as ex:
    for i, m in ex.map(one, todo):
        print(f"{i}: {m}", flush=True)
