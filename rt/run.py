import argparse
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="+")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--hint")
    a = ap.parse_args()
    import importlib
    table = {}
    for m in ("props1", "props2", "props3"):
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        table.update({k: v for k, v in vars(mod).items() if len(k) == 3 and k[0] == "C" and k[1:].isdigit()})
    reps = []
    for p in (sorted(table) if a.props == ["all"] else a.props):
        ctx = core.Ctx(a.seed, a.tier, None if a.hint is None else [float(x) for x in a.hint.split(',') if x])
        r = core.run(p, table[p], ctx, a.budget or (25 if a.tier == "quick" else 240), a.only)
        reps.append(r)
        if not a.out:
            print(p, r["evaluations"], r["distinct_nontrivial"], r["wall_s"], "TRUNC" if r["truncated"] else "",
                  "VIOL" if r["violations"] else "ok")
            for v in r["violations"]:
                print("    ", v["case"], ":", v["message"][:600], v["traceback"][-600:])
    if a.out:
        json.dump(reps[0] if len(reps) == 1 else reps, open(a.out, "w"), indent=1)


main()
