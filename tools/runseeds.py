"""Author's tool: apply every seeded bug to /repo in turn, run its property's check, undo.  usage: runseeds.py [ID...]"""
import json, os, subprocess, sys, time
S = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
for i in ids:
    m = json.load(open(f"{S}/{i}/meta.json"))
    p = m["property"]
    subprocess.run(["git", "-C", "/repo", "apply", f"{S}/{i}/patch.diff"], check=True)
    t = time.time()
    try:
        r = subprocess.run(["python3", "check.py", p, "quick"], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    ob = [l for l in r.stdout.splitlines() if l.startswith("obligation failed")]
    fi = any(l.startswith("failing input") for l in r.stdout.splitlines())
    print(f"{i:24s} {p} rc={r.returncode} {'O' if ob else '-'}{'I' if fi else '-'} {time.time()-t:5.1f}s {v[0] if v else r.stdout[-200:]+r.stderr[-200:]}", flush=True)
