#!/usr/bin/env python3
"""check.py <property id>: decide one property on the current working tree of /repo.

1. the verifier (vc/, python3-vt) generates and discharges the proof obligations of every function under contract from
   the current source;
2. the same postconditions are evaluated at run time on the real code (rt/, the repository's interpreter): bounded
   stand-in for undecided obligations and replay harness for refuted ones.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed."""
import ast
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = "python3-vt"


def sh(cmd, timeout):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", VERIF_REPO=REPO,
               PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, cwd=HERE)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    meta = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    meta = [m for m in meta if m["id"] == prop][0]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    with tempfile.TemporaryDirectory() as tmp:
        rout = os.path.join(tmp, "rt.json")
        vout = os.path.join(tmp, "vc.json")
        env_t = 840 if tier == "thorough" else 600
        have_vc = os.path.exists(os.path.join(HERE, "vc", "main.py"))
        pv = None
        if have_vc:
            pv = subprocess.Popen([VT, os.path.join(HERE, "vc", "main.py"), prop, "--tier", tier, "--out", vout],
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HERE,
                                  env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=REPO,
                                           OPENBLAS_NUM_THREADS="1"))
        rr = sh([PY, os.path.join(HERE, "rt", "run.py"), prop, "--tier", tier, "--seed", str(seed), "--out", rout], env_t)
        vlog = ""
        if pv is not None:
            try:
                vlog, _ = pv.communicate(timeout=max(10, env_t - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                pv.kill()
                vlog = "verifier timed out"
        vc = json.load(open(vout)) if os.path.exists(vout) else None
        if have_vc and vc is None:
            print("verifier did not finish:", vlog[-3000:])
        if os.path.exists(rout):
            rt = json.load(open(rout))
        else:
            # the package under test does not import: every property is gone
            rt = dict(evaluations=0, distinct_nontrivial=0, samples=[], truncated=False, wall_s=0,
                      violations=[dict(case="import", message="run-time contracts could not be evaluated",
                                       traceback=(rr.stdout + rr.stderr)[-3000:])])
            probe = sh([PY, "-c", f"import sys; sys.path.insert(0, {os.path.join(REPO, 'src')!r}); import ff"], 120)
            if probe.returncode == 0:
                print("run-time harness failed:", (rr.stdout + rr.stderr)[-3000:])
                return 2
        ref = (vc or {}).get("refuted", [])
        open_ = [o for o in (vc or {}).get("obligations", []) if o["status"] != "proved"] if vc else [dict(name="verifier")]
        if open_ and not ref and not rt["violations"]:
            # obligations left open: the bounded stand-in looks further, at sizes around the numbers these functions compare with
            hints = ",".join(map(str, numbers({o["name"].split("[")[0].split("/")[0] for o in open_}, (vc or {}).get("functions", {}))))
            left = env_t - (time.time() - t0)
            sh([PY, os.path.join(HERE, "rt", "run.py"), prop, "--tier", "thorough", "--seed", str(seed + 3000), "--out", rout,
                "--hint", hints, "--budget", str(min(left / 2, 60 if tier == "quick" else 300))], left)
            r2 = json.load(open(rout)) if os.path.exists(rout) else None
            if r2:
                rt["evaluations"] += r2["evaluations"]
                rt["distinct_nontrivial"] += r2["distinct_nontrivial"]
                rt["wall_s"] += r2["wall_s"]
                if r2["violations"]:
                    rt["violations"] = r2["violations"]
                    seed, tier = seed + 3000, "thorough"
        if ref and not rt["violations"]:
            # replay: the refuted obligations' counter-models give sizes; more inputs around them, on the real code
            hints = sorted({x for r in ref for x in r.get("sizes", {}).values() if 0 < x <= 64}
                           | set(numbers({r["name"].split("[")[0].split("/")[0] for r in ref}, (vc or {}).get("functions", {}))))
            for s2 in (seed + 1000, seed + 2000):
                left = env_t - (time.time() - t0)
                if left < 20:
                    break
                sh([PY, os.path.join(HERE, "rt", "run.py"), prop, "--tier", tier, "--seed", str(s2), "--out", rout, "--hint",
                    ",".join(map(str, hints)), "--budget", str(min(left / 2, 60 if tier == "quick" else 200))], left)
                r2 = json.load(open(rout)) if os.path.exists(rout) else None
                if r2:
                    rt["evaluations"] += r2["evaluations"]
                    rt["wall_s"] += r2["wall_s"]
                    if r2["violations"]:
                        rt["violations"] = r2["violations"]
                        seed = s2
                        break
            for r in ref:
                # frame obligations: a possible alias that cannot be excluded is no violation
                r["final"] = r["status"] == "refuted" or prop != "C21"
    return verdict(prop, meta, tier, seed, t0, vc, vlog, rt)


def numbers(names, functions):
    """numbers in comparisons of the named functions, the package functions they are executed with, and module constants"""
    for f in dict(functions).items():
        if f[0] in names:
            names = names | set(f[1].get("inlined", []))
    out = set()
    for mod in {n.split(".")[0] for n in names}:
        try:
            tree = ast.parse(open(os.path.join(REPO, "src", "ff", mod + ".py")).read())
        except (OSError, SyntaxError):
            continue
        for st in tree.body:
            const = isinstance(st, (ast.Assign, ast.AnnAssign))
            if const or isinstance(st, ast.FunctionDef) and f"{mod}.{st.name}" in names:
                for c in ast.walk(st):
                    if const or isinstance(c, ast.Compare):
                        out |= {x.value for x in ast.walk(c) if isinstance(x, ast.Constant) and type(x.value) in (int, float) and 0 < x.value < 2 ** 20}
    return sorted(x for x in out if type(x) is int and x > 2)[:12] + sorted(x for x in out if type(x) is float or x <= 2)[:12]


def verdict(prop, meta, tier, seed, t0, vc, vlog, rt):
    known = load_known()
    viol, found = [], []
    for v in rt["violations"]:
        k = [x for x in known if x["property"] == prop and x["case"] == v["case"]]
        (found if k else viol).append(v)
    refuted = (vc or {}).get("refuted", [])
    # obligations the verifier does not accept; without a failing input: no-failing-input-found
    final = [r for r in refuted if r.get("final")]
    level = "exploration"
    cov = dict(evaluations=rt["evaluations"], distinct_nontrivial=rt["distinct_nontrivial"],
               rule="deterministic and seeded inputs of the run-time contracts in /verif/rt (bounded); a case is non-trivial "
                    "if it evaluates at least one postcondition on a fresh input; distinct by case name",
               samples=rt["samples"], bounded_truncated=rt["truncated"])
    assumptions = []
    if vc:
        obl = vc["obligations"]
        cov.update(obligations=len(obl), discharged=sum(o["status"] == "proved" for o in obl),
                   checker_cmd=f"python3-vt /verif/vc/main.py {prop}", trusted_base=vc["trusted_base"],
                   undischarged=[o for o in obl if o["status"] != "proved"][:50], functions=vc["functions"],
                   backends=vc["backends"], solver_s=vc["solver_s"], bounded=vc.get("bounded", []),
                   obligation_sample=[o["name"] for o in obl][:40], lean=vc.get("lean", {}))
        assumptions = vc["assumptions"]
        level = vc["level"]
    replay = None
    out = []
    for f in found:
        print(f"KNOWN-FINDING: property={prop} {f['case']}: {f['message'][:200]}")
    code = 0
    if viol:
        replay = os.path.join(HERE, "replay", f"{prop}.json")
        json.dump(dict(property=prop, kind="failing input on the real code", violations=viol, refuted_obligations=refuted,
                       rerun=[f"{PY} /verif/rt/run.py {prop} --tier {tier} --seed {seed} --only {v['case']!r}" for v in viol]),
                  open(replay, "w"), indent=1)
        for r in refuted[:5]:
            print(f"obligation failed: {r['name']}: {r.get('reason', '')[:300]}")
        print(f"failing input: {viol[0]['case']}: {viol[0]['message'][:1500]}")
        if viol[0]["traceback"]:
            print(viol[0]["traceback"][-1500:])
        out.append(f"VIOLATION property={prop} replay={replay}")
        code = 1
    elif final:
        replay = os.path.join(HERE, "replay", f"{prop}.json")
        json.dump(dict(property=prop, kind="failed obligation, no failing input found", obligations=final,
                       verifier_output=vlog[-20000:]), open(replay, "w"), indent=1)
        for r in final[:5]:
            print(f"obligation failed: {r['name']}: {r.get('reason', '')[:500]}")
        out.append(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
        code = 1
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(viol) + (len(final) if not viol else 0))
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    und = cov.get("undischarged", [])
    print(f"{prop}: {meta['title']}: obligations {cov.get('discharged', 0)}/{cov.get('obligations', 0)} discharged"
          f"{' (' + str(len(und)) + ' undecided: bounded stand-in)' if und else ''}; run-time contracts: "
          f"{rt['evaluations']} evaluations; {ev['wall_s']} s")
    for line in out:
        print(line)
    return code


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)).get("known", []) if os.path.exists(p) else []


if __name__ == "__main__":
    sys.exit(main())
