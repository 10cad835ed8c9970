"""Compile lean/Lemmas.lean and list the axioms of every theorem: build/lean.json (rebuilt when the source differs)."""
import hashlib
import json
import os
import re
import subprocess
import time

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(H, "lean", "Lemmas.lean")
OUT = os.path.join(H, "build", "lean.json")
ALLOWED = {"propext", "Classical.choice", "Quot.sound"}


def names(src):
    out, sec = [], []
    for m in re.finditer(r"^(?:theorem|lemma)\s+(\S+)", src, re.M):
        out.append("FF." + m.group(1))
    return out


def status(timeout=240):
    src = open(SRC).read()
    sha = hashlib.sha256(src.encode()).hexdigest()
    try:
        d = json.load(open(OUT))
        if d["sha"] == sha:
            return d
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(OUT), exist_ok=True)
    t0 = time.time()
    ns = names(src)
    tmp = os.path.join(H, "build", f"Check{os.getpid()}.lean")
    with open(tmp, "w") as f:
        f.write(src + "\n" + "\n".join(f"#print axioms {n}" for n in ns) + "\n")
    try:
        r = subprocess.run(["lean", tmp], capture_output=True, text=True, timeout=timeout)
        txt, ok = r.stdout + r.stderr, r.returncode == 0
    except (OSError, subprocess.TimeoutExpired) as e:
        return dict(sha=sha, ok=False, theorems={}, seconds=time.time() - t0, log=f"time limit: {e}")
    finally:
        os.unlink(tmp)
    th = {}
    for n in ns:
        m = re.search(rf"'{re.escape(n)}' (?:depends on axioms: \[([^\]]*)\]|does not depend on any axioms)", txt)
        if m and ok:
            th[n] = sorted(x.strip() for x in (m.group(1) or "").split(",") if x.strip())
    d = dict(sha=sha, ok=ok and all(set(a) <= ALLOWED for a in th.values()) and len(th) == len(ns), theorems=th, seconds=round(time.time() - t0, 1), log=txt[-3000:] if not ok else "")
    part = OUT + f".{os.getpid()}"
    json.dump(d, open(part, "w"), indent=1)
    os.replace(part, OUT)
    return d


if __name__ == "__main__":
    d = status(900)
    print(f"lean: {len(d['theorems'])} theorems, ok={d['ok']}, {d['seconds']} s", d.get("log", "")[:2000])
