"""Generates and discharges the proof obligations of one property from the current source (VERIF_REPO, default /repo).

  python3-vt vc/main.py <property> --tier quick|thorough --out FILE     JSON for check.py
  python3-vt vc/main.py [property|function ...] [-v]                    development printer"""
import argparse
import json
import multiprocessing as mp
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import z3                      # noqa: E402
import num as N                # noqa: E402
import spec                    # noqa: E402
import npm                     # noqa: E402
import effects                 # noqa: E402
import fol                     # noqa: E402

MODULES = ("contracts_lib", "contracts_comb", "contracts_utils", "contracts_dist", "contracts_rand", "contracts_text", "contracts_paths", "contracts_symp", "contracts_graph", "contracts_faces")


def load():
    for mod in MODULES:
        if os.path.exists(os.path.join(HERE, mod + ".py")):
            __import__(mod)


class Late(BaseException):
    pass


def alarm(*_):
    raise Late()


def sizes(model):
    """integer sizes of a counter-model (names of the contract's parameters only)"""
    out = {}
    try:
        for d in model.decls():
            if d.arity() == 0 and "!" not in d.name() and "#" not in d.name():
                v = model[d]
                if z3.is_int_value(v):
                    out[d.name()] = v.as_long()
    except Exception:
        pass
    return out


def job(spec_):
    kind, q, v, tier, *mode = spec_
    t0 = time.time()
    for k in N.STATS:
        N.STATS[k] = 0
    limit = 40 if tier == "quick" else 300
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        if kind == "eff":
            obs = effects.seed_obs(q, "seed", spec.Ob) if v == "seed" else effects.frame_obs(q, effects.MODIFIES.get(q, ()), spec.Ob)
            r = dict(obs=obs, machine=None)
        elif kind == "fol":
            obs, m = fol.verify(fol.CONTRACTS[q], v, limit - 4)
            N.STATS.update(z3_queries=fol.CHECKS["queries"], z3_unknown=fol.CHECKS["unknown"], z3_time=fol.CHECKS["seconds"])
            r = dict(obs=obs, machine=m)
        else:
            r = spec.verify(spec.CONTRACTS[q], v, tier, *mode) if kind == "fn" else spec.prove_lemma(spec.LEMMAS[q], tier)
        obs, m = r["obs"], r["machine"]
    except Late:
        obs, m = [spec.Ob(f"{q}[{v}]", "unknown", f"not finished in {limit} s")], None
    finally:
        signal.alarm(0)
    out = []
    for o in obs:
        d = dict(name=o.name if kind != "lemma" else "lemma " + o.name, status=o.status)
        if o.status != "proved":
            d["reason"] = o.reason[:1500]
            if o.model is not None:
                d["sizes"] = sizes(o.model)
                d["model"] = str(o.model)[:1500]
        out.append(d)
    frame = None
    if m is not None and kind == "fn":
        frame = sorted({str(p) for p, _ in (getattr(m, "obs_frame", None) or [])}) if hasattr(m, "obs_frame") else None
    return dict(kind=kind, q=q, v=v, obs=out, used=sorted(m.used) if m else [], inlined=sorted(m.inlined) if m else [],
                assumed=sorted(m.assumed) if m else [], frame=frame, time=round(time.time() - t0, 2), stats=dict(N.STATS))


def jobs_of(prop, tier):
    """obligation groups of a property; costly variants are left to the thorough tier"""
    out = []
    for q, c in spec.CONTRACTS.items():
        if prop == "C21" or prop in c.props:
            for v in c.variants:
                if tier == "quick" and v in c.thorough:
                    continue
                out.append(("fn", q, v, tier) + (("frame",) if prop == "C21" else ()))
    for q, l in spec.LEMMAS.items():
        if prop in l.props and not (tier == "quick" and l.thorough):
            out.append(("lemma", q, None, tier))
    out += [("fol", q, v, tier) for q, c in fol.CONTRACTS.items() if prop in c.props for v in c.variants]
    if prop == "C18":
        out += [("eff", q, "seed", tier) for q in effects.SEEDED]
    if prop == "C21":
        out += [("eff", q, "frame", tier) for q in effects.public()]
    return out


def _work(j, conn):
    try:
        conn.send(job(j))
    except BaseException as e:     # noqa: BLE001
        conn.send(dict(kind=j[0], q=j[1], v=j[2], obs=[dict(name=f"{j[1]}[{j[2]}]", status="unsupported", reason=f"verifier: {type(e).__name__}: {e}")],
                       used=[], inlined=[], assumed=[], frame=None, time=0, stats={}))
    conn.close()


def run_jobs(js, limit):
    """each obligation group in its own process (8 at a time), so that none can take another one down"""
    t0 = time.time()
    pending, live, done = list(js), [], []
    ctx = mp.get_context("fork")
    ncpu = max(1, min(8, os.cpu_count() or 1))
    per = 60 if not js or js[0][3] == "quick" else 330
    while pending or live:
        while pending and len(live) < ncpu:
            j = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(j, b), daemon=True)
            p.start()
            b.close()
            live.append((j, p, a, time.time()))
        mp.connection.wait([a for _, _, a, _ in live], timeout=1)
        for x in list(live):
            j, p, a, t = x
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = lost(j, "the verifier process died")
            elif not p.is_alive():
                r = lost(j, "the verifier process died")
            elif time.time() - t > per or time.time() - t0 > limit:
                p.kill()
                r = lost(j, "time limit")
            if r is not None:
                live.remove(x)
                p.join(5)
                a.close()
                done.append(r)
        if time.time() - t0 > limit and pending:
            done += [lost(j, "time limit") for j in pending]
            pending = []
    order = {j: n for n, j in enumerate(js)}
    return sorted(done, key=lambda r: [k for j, k in order.items() if j[:3] == (r["kind"], r["q"], r["v"])][:1])


def discharged(u):
    """the checks that discharge the contract of u"""
    return sorted({p for cs in (spec.CONTRACTS, fol.CONTRACTS) if u in cs and cs[u].variants for p in cs[u].props})


def lost(j, why):
    return dict(kind=j[0], q=j[1], v=j[2], obs=[dict(name=f"{j[1]}[{j[2]}]", status="unknown", reason=why)], used=[], inlined=[], assumed=[],
                frame=None, time=0, stats={})


def late(reason):
    """no answer within the limits: the bounded stand-in decides (never an alarm)"""
    return any(x in reason for x in ("time limit", "not finished in", "process died", "time budget", "z3: unknown"))


TRUST = ["the verifier itself (/verif/vc: symbolic execution of the Python AST, loop rules, the algebra of sums in num.py)",
         "z3 5.3 and, for z3's unknowns, cvc5 1.4",
         "contracts of library functions (numpy, scipy, itertools) written in vc/npm.py",
         "CPython semantics of the statements in the supported subset"]
ASSUME = ["machine arithmetic is treated as exact: floats and complex numbers as real and complex numbers, rounding and overflow of entries ignored",
          "integers of the code are unbounded; numpy integer overflow is not modelled",
          "numpy array views are modelled exactly for basic slices; functions returning views of other layouts are read-only afterwards or unsupported",
          "print output and warnings are not part of any contract; memory and time limits are ignored"]


BOUNDED = {}                   # property: what is decided by the run-time contracts only


FACTS = {"C10": ["Kasteleyn's theorem: with the orientation that the contract of pfo_algorithm promises (every inner face odd), the determinant of the "
                 "skew-symmetric weighted adjacency matrix is the square of the number of perfect matchings"],
         "C11": ["lemma cotree: in a plane graph the edges outside a spanning tree join the faces into a tree (used where pfo_algorithm calls dual_graph_H)",
                 "graphs are finite (termination of the while loops is proved by sets that shrink)"]}


# theorems of lean/Lemmas.lean over the contracts (they do not depend on the source of the library)
LEAN = {"C01": ["chain_mul", "chain_adj", "jw_anticommute", "jw_canonical", "jw_vacuum", "CAR.majorana_xx", "CAR.majorana_yy", "CAR.majorana_xy", "majorana_hermitian"],
        "C07": ["CAR.number_conserving", "jw_car", "normalised_trace"],
        "C11": ["sign_product", "odd_face"],
        "C12": ["trace_over_first", "trace_over_second", "trace_preserved"],
        "C15": ["chain_complete", "stabilizer_sum"],
        "C17": ["jw_car", "CAR.dag", "CAR.annihilates", "CAR.occupied_norm", "CAR.vacuum_projector", "canonical_symplectic", "rotated_anticommutator",
                "unitary_columns", "iterate_norm"]}


def lean_obligations(prop):
    if prop not in LEAN:
        return [], {}
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
    import lean
    d = lean.status()
    obs = [dict(name=f"lean:FF.{t}", status="proved" if d["ok"] and "FF." + t in d["theorems"] else "unknown", reason="time limit (Lean gave no answer)") for t in LEAN[prop]]
    return obs, dict(theorems=["FF." + t for t in LEAN[prop]], axioms=sorted({a for t in LEAN[prop] for a in d["theorems"].get("FF." + t, [])}), seconds=d["seconds"])


def driver(prop, tier, out):
    t0 = time.time()
    js = jobs_of(prop, tier)
    res = run_jobs(js, 420 if tier == "quick" else 800)
    obligations, refuted, funcs, assumed, used = [], [], {}, set(), {}
    stats = {}
    for r in res:
        for o in r["obs"]:
            obligations.append(dict(name=o["name"], status=o["status"], **({"reason": o["reason"][:300]} if o["status"] != "proved" and o.get("reason") else {})))
            if o["status"] in ("refuted", "unknown") and not late(o.get("reason") or "time limit"):
                refuted.append(dict(name=o["name"], status=o["status"], reason=o.get("reason", ""), sizes=o.get("sizes", {}), model=o.get("model", ""), final=False))
        if r["kind"] in ("fn", "eff", "fol"):
            f = funcs.setdefault(r["q"], dict(variants=0, obligations=0, discharged=0, inlined=[], callee_contracts=[]))
            f["variants"] += 1
            f["obligations"] += len(r["obs"])
            f["discharged"] += sum(o["status"] == "proved" for o in r["obs"])
            f["inlined"] = sorted(set(f["inlined"]) | set(r["inlined"]))
            f["callee_contracts"] = sorted(set(f["callee_contracts"]) | set(r["used"]))
            for u in r["used"]:
                used[u] = discharged(u)
        assumed |= set(r["assumed"])
        for k, x in r["stats"].items():
            stats[k] = stats.get(k, 0) + x
    lobs, linfo = lean_obligations(prop)
    for o in lobs:
        obligations.append({k: v for k, v in o.items() if k != "reason" or o["status"] != "proved"})
    ok = all(o["status"] == "proved" for o in obligations) and obligations
    d = dict(property=prop, tier=tier, obligations=obligations, refuted=refuted, functions=funcs,
             trusted_base=TRUST + [f"{a}: {npm.TRUSTED.get(a, 'contract in vc/npm.py')}" for a in sorted(assumed)],
             backends=dict(z3=dict(queries=stats.get("z3_queries", 0), unknown=stats.get("z3_unknown", 0), seconds=round(stats.get("z3_time", 0), 2)),
                           cvc5=dict(queries=stats.get("cvc5_queries", 0), seconds=round(stats.get("cvc5_time", 0), 2)),
                           algebra=dict(normalisations=stats.get("algebra", 0)),
                           **({"lean": dict(theorems=sum(o["status"] == "proved" for o in lobs), seconds=linfo["seconds"])} if lobs else {})), lean=linfo,
             solver_s=round(stats.get("z3_time", 0) + stats.get("cvc5_time", 0), 2),
             assumptions=ASSUME + FACTS.get(prop, []) + [f"callee {u} is used through its contract, {'discharged by check ' + ', '.join(p) if p else 'assumed (bounded run-time check only)'}" for u, p in sorted(used.items())],
             level="proof" if ok and prop not in BOUNDED else "exploration", bounded=BOUNDED.get(prop, []), all_proved=bool(ok), wall_s=round(time.time() - t0, 2))
    json.dump(d, open(out, "w"), indent=1)
    print(f"{prop}: {sum(o['status'] == 'proved' for o in obligations)}/{len(obligations)} obligations, {d['wall_s']} s")


def dev(what, verbose, tier):
    js = []
    for q, c in spec.CONTRACTS.items():
        if not what or any(w in c.props or (w[1:] == q if w[0] == "=" else w in q) for w in what):
            js += [("fn", q, v, tier) for v in c.variants]
    for q, l in spec.LEMMAS.items():
        if not what or any(w in l.props or w in q for w in what):
            js.append(("lemma", q, None, tier))
    js += [("fol", q, v, tier) for q, c in fol.CONTRACTS.items() for v in c.variants if not what or any(w in c.props or (w[1:] == q if w[0] == "=" else w in q) for w in what)]
    js += [("eff", q, "seed", tier) for q in effects.SEEDED if not what or any(w == "C18" or w in q for w in what)]
    js += [("eff", q, "frame", tier) for q in effects.public() if not what or any(w == "C21" or w in q for w in what)]
    t0 = time.time()
    res = run_jobs(js, 3600)
    for r in res:
        bad = [o for o in r["obs"] if o["status"] != "proved"]
        if not bad and not verbose:
            continue
        print(f"{r['q']}[{r['v']}] {len(r['obs'])-len(bad)}/{len(r['obs'])} {r['time']:.1f}s", "" if not bad else "  <<<<", "inlined:", r["inlined"], "used:", r["used"],
              "frame:", r["frame"] and "VIOL")
        for o in bad:
            print("     ", o["status"], o["name"], o.get("reason", "")[:400], o.get("model", "")[:300] if verbose else "")
    slow = sorted(res, key=lambda r: -r["time"])[:6]
    print("slowest:", [(r["q"], r["v"], r["time"]) for r in slow], "longest query:", max([r["stats"].get("z3_max", 0) for r in res], default=0),
          "unknowns:", sum(r["stats"].get("z3_unknown", 0) for r in res))
    n = sum(len(r["obs"]) for r in res)
    print(f"total {sum(o['status'] == 'proved' for r in res for o in r['obs'])}/{n} obligations in {len(res)} groups, {time.time()-t0:.1f}s wall, {sum(r['time'] for r in res):.1f}s cpu")


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("what", nargs="*")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    load()
    if a.out:
        driver(a.what[0], a.tier, a.out)
    else:
        dev(a.what, a.v, a.tier)
