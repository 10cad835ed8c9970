"""Contracts: equality obligations, verification of one function against its contract, driver data structures."""
import ast
import time
import traceback

import z3

import num as N
from num import Num, num, Unsupported, zint, zbool, And, Or, Not, fresh, valid, unsat, check
from val import *
import exe
import npm
from npm import as_chain, chain_at, chain_len

CONTRACTS = {}
# documented values of the optional parameters: part of the contracts (the values in the code are checked against them)
DEFAULTS = {
    "ff_lib.generate_pauli_group": dict(verbose=False), "ff_lib.rotate_operators": dict(Left=False, verbose=False),
    "ff_lib._perform_rotation": dict(verbose=False),
    "ff_lib.build_V": dict(Z=None), "ff_lib.build_H": dict(B=None),
    "ff_lib.random_FF_rotation": dict(seed=None, returnH=False, returnOrb=False),
    "ff_lib.random_FF_state": dict(fixedN=False, seed=None, returnH=False, pure=False),
    "ff_lib.random_H_generator": dict(fixedN=False, seed=None), "ff_lib.generate_gaussian_state": dict(alphas=None),
    "ff_lib.build_op": dict(verbose=None, direct=False), "ff_lib.compute_cov_matrix": dict(n_sites=None, alphas=None),
    "ff_lib.compute_2corr_matrix": dict(alphas=None, conjugation=None), "ff_lib.compute_algebra_S": dict(verbose=False),
    "ff_lib.is_matchgate": dict(verbose=False), "ff_distance_measures.SRE": dict(a=2), "ff_distance_measures.FAF": dict(k=2),
    "ff_utils.print_custom": dict(k=9), "ff_utils._print": dict(k=9), "ff_utils.clean": dict(threshold=1e-6), "ff_utils.formatted_output": dict(precision=6),
    "ff_random_states.random_qubit_state": dict(seed=None), "ff_random_states.random_qubit_pure_state": dict(seed=None),
    "ff_random_states.random_FF_state_randH": dict(seed=None), "ff_random_states.random_FF_state_rotPDF": dict(returnS=False, seed=None),
    "ff_random_states.random_FF_pure_state_W0": dict(seed=None), "ff_random_states.random_FF_pure_state_WN": dict(N=None, seed=None),
    "ff_random_states.random_FF_pure_state_CN": dict(seed=None), "ff_graph_theory.generate_random_planar_graph": dict(seed=None),
    "ff_graph_theory.faces": dict(emb=None), "ff_graph_theory.complete_face": dict(verbose=False), "ff_graph_theory.pfo_algorithm": dict(verbose=False),
}
OBL_BUDGET = 20.0


class Ob:
    """result of one obligation"""

    def __init__(self, name, status, reason="", model=None):
        self.name, self.status, self.reason, self.model = name, status, reason, model


class Contract:
    """machine-checked specification of one function.

    variants: name -> make(machine) -> argument dict (preconditions are appended to machine.pc)
    cases(machine, args) -> [(condition, ("return", value) | ("raise", exception))]: the post-condition, used on the body and
    at every call site;  post(machine, args, outcome) -> obligations, for relational post-conditions"""

    def __init__(self, qn, props, variants, cases=None, post=None, call=None, kinds=False, budget=None, thorough=()):
        self.thorough = thorough
        self.qn, self.props, self.variants = qn, props, variants
        self.cases_ = cases
        self.post = post
        self.call_ = call
        self.kinds = kinds
        self.budget = budget
        CONTRACTS[qn] = self

    def cases(self, m, env):
        f = self.call_ or self.cases_
        return f(m, env) if f else None


def status(ok, name, model=None, reason=""):
    return Ob(name, "proved" if ok is True or ok == "proved" else ok if isinstance(ok, str) else "refuted", reason, model)


def prove_bool(gamma, goal, name, reason=""):
    goal = simp(goal)
    if goal is True:
        return [Ob(name, "proved")]
    g = list(gamma) + ([] if goal is False else [z3.Not(goal)])
    r, mod = check(g)
    if r == "unsat":
        return [Ob(name, "proved")]
    facts = N.opaque_facts(list(gamma), zbool(goal)) if goal is not False or gamma else []
    if facts:
        r2, mod2 = check(g + facts)
        if r2 == "unsat":
            return [Ob(name, "proved")]
    if r == "sat":
        st = "unknown" if N.soft_expr(zbool(goal)) or any(N.soft_expr(x) for x in gamma) else "refuted"
        return [Ob(name, st, reason or f"not implied: {str(goal)[:300]}", mod)]
    return [Ob(name, "unknown", "z3: unknown")]


def prove_num(gamma, got, want, name):
    r, info = N.prove_equal(num(got), num(want), gamma)
    if r == "proved":
        return [Ob(name, "proved")]
    if r == "failed":
        return [Ob(name, "refuted", "difference: " + str(info["terms"])[:600], info["model"])]
    return [Ob(name, "unknown", str(info.get("why")) + " " + str(info.get("terms"))[:400])]


def desc(v):
    if isinstance(v, AV):
        return f"array of shape {v.shape} kind {v.kind}"
    if isinstance(v, LV):
        return f"list of length {v.length}"
    return f"{type(v).__name__} {str(v)[:200]}"


def val_eq(got, want, gamma, name, kinds=False):
    """obligations for got == want (both immutable values)"""
    if want is ANY:
        return [Ob(name, "proved")]
    if isinstance(want, Pred):
        return want.fn(got, gamma, name)
    if isinstance(got, Poison):
        return [Ob(name, "unknown", got.why)]
    if isinstance(got, Str) or isinstance(want, Str):
        return str_eq(got, want, gamma, name)
    if want is None or isinstance(want, str):
        ok = type(got) is type(want) and got == want
        return [Ob(name, "proved" if ok else "refuted", f"expected {want!r}, got {desc(got)}")]
    if is_bool(want):
        if not is_bool(got):
            return [Ob(name, "refuted", f"expected a bool, got {desc(got)}")]
        return prove_bool(gamma, simp(zbool(got) == zbool(want)), name, f"truth value differs from the specification: got {str(got)[:300]} want {str(want)[:300]}")
    if is_scalar(want):
        if isinstance(got, AV) and got.ndim == 0:
            got = got.at()
        if not is_scalar(got):
            return [Ob(name, "refuted", f"expected a number, got {desc(got)}")]
        if exe.inf(want) or exe.inf(got):
            ok = exe.inf(want) and exe.inf(got) and want == got
            return [Ob(name, "proved" if ok else "refuted", f"expected {want}, got {got}")]
        if is_int(got) and is_int(want):
            return prove_bool(gamma, simp(zint(got) == zint(want)), name)
        return prove_num(gamma, got, want, name)
    if isinstance(want, AV):
        if not isinstance(got, AV):
            if isinstance(got, LV):
                return [Ob(name, "refuted", f"expected an array, got {desc(got)}")]
            return [Ob(name, "refuted", f"expected an array, got {desc(got)}")]
        if got.ndim != want.ndim:
            return [Ob(name, "refuted", f"expected {desc(want)}, got {desc(got)}")]
        if piece_of(got) is not None or piece_of(want) is not None:
            return piece_eq(piece_of(got), piece_of(want), gamma, name, kinds)
        out = []
        for k, (a, b) in enumerate(zip(got.shape, want.shape)):
            out += prove_bool(gamma, simp(zint(a) == zint(b)), f"{name}/shape{k}", f"dimension {k} is {a}, expected {b}")
        if kinds and got.kind != want.kind:
            out.append(Ob(f"{name}/dtype", "refuted", f"dtype class {got.kind}, expected {want.kind}"))
        if any(o.status != "proved" for o in out):
            return out
        gc, wc = as_chain(got) if got.prov else None, as_chain(want) if want.prov else None
        if gc is not None and wc is not None and isinstance(gc[1], Num) and isinstance(wc[1], Num):
            L = chain_len(wc[0])
            o2 = prove_bool(gamma, simp(zint(chain_len(gc[0])) == zint(L)), f"{name}/factors")
            o2 += prove_num(gamma, gc[1], wc[1], f"{name}/scalar")
            p = fresh("p")
            g = list(gamma) + [p >= 0, p < zint(L)]
            for i in range(2):
                for j in range(2):
                    o2 += prove_num(g, chain_at(gc[0], p).at(i, j), chain_at(wc[0], p).at(i, j), f"{name}/factor[{i},{j}]")
            if all(o.status == "proved" for o in o2):
                return out + o2
            # equal as matrices although the factors differ (scalars moved between factors): compare products of entries
            ch = o2
        else:
            ch = None
        idx = [fresh("i") for _ in want.shape]
        g = list(gamma) + [z3.And(v >= 0, v < zint(d)) for v, d in zip(idx, want.shape)]
        if want.kind == "b" and got.kind == "b":
            return out + prove_bool(g, simp(zbool(got.at(*idx)) == zbool(want.at(*idx))), f"{name}/entries")
        e = prove_num(g, got.at(*idx), want.at(*idx), f"{name}/entries")
        if ch is not None and e[0].status != "proved":
            return out + ch
        return out + e
    if isinstance(want, LV):
        if not isinstance(got, LV):
            return [Ob(name, "refuted", f"expected a list, got {desc(got)}")]
        if piece_of(got) is not None or piece_of(want) is not None:
            return piece_eq(piece_of(got), piece_of(want), gamma, name, kinds)
        out = prove_bool(gamma, simp(zint(got.length) == zint(want.length)), f"{name}/length", f"length {got.length}, expected {want.length}")
        if out[0].status != "proved":
            return out
        n = want.length
        if isinstance(n, int) and n <= 8:
            for k in range(n):
                out += val_eq(got.at(k), want.at(k), gamma, f"{name}[{k}]", kinds)
            return out
        k = fresh("k")
        g = list(gamma) + [k >= 0, k < zint(n)]
        return out + val_eq(frz(got.at(k)), frz(want.at(k)), g, f"{name}[k]", kinds)
    if isinstance(want, tuple):
        if not isinstance(got, tuple) or len(got) != len(want):
            return [Ob(name, "refuted", f"expected a tuple of {len(want)}, got {desc(got)}")]
        out = []
        for k, (a, b) in enumerate(zip(got, want)):
            out += val_eq(a, b, gamma, f"{name}.{k}", kinds)
        return out
    raise Unsupported(f"specification value {type(want).__name__}")


def piece_eq(p, q, gamma, name, kinds):
    """equality of filtered lists: same iterations, same conditions, same items (sufficient)"""
    if p is None or q is None or len(p.binders) != len(q.binders) or any(a[2] or b[2] for a, b in zip(p.binders, q.binders)):
        return [Ob(name, "unknown", "lists filtered in different ways")]
    p, q = p.renamed(), q.renamed()
    g, out = list(gamma), []
    for i in range(len(p.binders)):
        (v, n, _), (w, n2, _) = p.binders[i], q.binders[i]
        out += prove_bool(g, simp(zint(n) == zint(n2)), f"{name}/range{i}", f"{n} iterations, expected {n2}")
        q = Piece(q.binders[:i] + tuple((a, subst_val(b, [(w, v)]), c) for a, b, c in q.binders[i:]), subst_val(q.guard, [(w, v)]), subst_val(q.value, [(w, v)]))
        g += [v >= 0, v < zint(n)]
    if any(o.status != "proved" for o in out):
        return out
    out += prove_bool(g, simp(zbool(p.guard) == zbool(q.guard)), f"{name}/condition", f"condition {str(p.guard)[:300]}, expected {str(q.guard)[:300]}")
    if q.guard is not True:
        g.append(zbool(q.guard))
    return out + val_eq(p.value, q.value, g, f"{name}/items", kinds)


def str_eq(got, want, gamma, name):
    g, w = [[x] if isinstance(x, str) else x.parts if isinstance(x, Str) else None for x in (got, want)]
    if g is None or w is None:
        return [Ob(name, "unknown", "string")]
    if len(g) != len(w):
        return [Ob(name, "unknown", f"strings differ in form: {g} / {w}")]
    out = []
    for k, (a, b) in enumerate(zip(g, w)):
        if isinstance(a, str) and isinstance(b, str):
            out.append(Ob(f"{name}/text{k}", "proved" if a == b else "refuted", f"expected {b!r}, got {a!r}"))
        elif isinstance(a, tuple) and isinstance(b, tuple):
            out += val_eq(a[1], b[1], gamma, f"{name}/value{k}") + str_eq(Str(parts=list(a[2])), Str(parts=list(b[2])), gamma, f"{name}/format{k}")
        else:
            out.append(Ob(f"{name}/part{k}", "unknown", "strings differ in form"))
    return out or [Ob(name, "proved")]


def frz(v):
    return v


class Any_:
    pass


ANY = Any_()


class Pred:
    """post-condition given by a predicate: fn(got, gamma, name) -> obligations"""

    def __init__(self, fn):
        self.fn = fn


def func(qn):
    mod, name = qn.split(".")
    m = exe.module(mod)
    f = m.globals.get(name)
    if not isinstance(f, exe.Func):
        raise Unsupported(f"{qn} is not a function of the module")
    return f


def verify(c, vname, tier="quick", mode="post", log=None):
    """all obligations of one variant of one contract; {obs, used, inlined, time}"""
    t0 = time.time()
    N.reset()
    N.GLOBAL_GAMMA[:] = []
    budget = (c.budget or OBL_BUDGET) * (4 if tier == "thorough" else 1)
    N.DEADLINE[0] = t0 + budget
    base = f"{c.qn}[{vname}]"
    m = exe.Machine({q: x for q, x in CONTRACTS.items() if q != c.qn or x.call_ is not None})
    obs, pc0 = [], []
    try:
        f = func(c.qn)
        args = c.variants[vname](m)
        N.GLOBAL_GAMMA[:] = list(m.pc)
        r, _ = check(m.pc)
        if r == "unsat":
            return dict(obs=[Ob(base + "/vacuous", "unknown", "precondition is unsatisfiable")], machine=m, time=0)
        fro = {k: m.freeze(v) for k, v in args.items()}
        for k, v in args.items():
            if isinstance(v, (exe.Arr, exe.Lst)):
                m.owner[v.box] = k
        pc0 = list(m.pc)
        if mode != "frame" and vname == next(iter(c.variants)):
            obs += default_obs(c, f, m, base)
        paths = m.explore(lambda: m.call_func(f, [], dict(args)))
        if log:
            log(f"{base}: {len(paths)} paths")
        if mode == "frame":
            import effects
            may = effects.MODIFIES.get(c.qn, ())                # documented exception: complete_face updates the matrix it returns
            own = {k for k, v in args.items() if isinstance(v, (exe.Arr, exe.Lst)) and k not in may}
            for k in sorted(own):
                w = [pc for p, pc in m.frame if p == k and not unsat(pc0 + [x for x in pc if x is not True])]
                obs.append(Ob(f"{base}/frame {k}", "refuted" if w else "proved", f"argument {k} is written to"))
            for i, p in enumerate(paths):
                kind, val = p["out"]
                al = sorted({m.owner[b] for b in boxes(val) if b in m.owner and m.owner[b] in own}) if kind == "return" else []
                obs.append(Ob(f"{base}/path{i}/fresh result", "proved" if not al or unsat(pc0 + [x for x in p["pc"] if x is not True]) else "unknown", f"the result is argument {al}"))
            return dict(obs=obs, machine=m, time=time.time() - t0)
        m.pc = list(pc0)
        cases = c.cases_(m, dict(bound(f, fro, m))) if c.cases_ is not None else None
        live = 0
        for i, p in enumerate(paths):
            gamma = pc0 + p["pc"]
            if unsat(gamma):
                continue
            live += 1
            m.heap, m.pc = p["heap"], list(gamma)
            kind, val = p["out"]
            if kind == "normal":
                kind = "return"
            if kind == "return":
                val = m.freeze(val)
            nm = f"{base}/path{i}"
            if c.post is not None:
                obs += c.post(m, fro, (kind, val), gamma, nm)
            if cases is None:
                continue
            seen = []
            for j, (cond, want) in enumerate(cases):
                cond = simp(cond)
                g = gamma + [N.Not(s) for s in seen] + ([] if cond is True else [cond])
                seen.append(cond)
                if cond is False or any(x is False for x in g) or unsat(g):
                    continue
                g = [x for x in g if x is not True]
                if any(N.soft_expr(x) for x in g):
                    g = g + N.opaque_facts(g, z3.BoolVal(True))
                    if unsat(g):
                        continue
                nj = f"{nm}/case{j}"
                if want[0] == "raise":
                    if kind == "raise" and (val == want[1] or want[1] == "*" or val.split(".")[-1] == want[1]):
                        obs.append(Ob(nj, "proved"))
                    else:
                        obs += reach(g, nj, f"expected {want[1]}, got {kind} {desc(val)}")
                elif kind == "raise":
                    obs += reach(g, nj, f"raises {val}")
                else:
                    obs += val_eq(val, want[1], g, nj, c.kinds)
                if cond is True:
                    break
            else:
                rest = gamma + [N.Not(s) for s in seen]
                if not any(x is False for x in rest) and not unsat([x for x in rest if x is not True]):
                    obs.append(Ob(f"{nm}/cases", "unknown", "cases of the contract do not cover this path"))
        if not live:
            obs.append(Ob(base + "/reachable", "unknown", "no feasible path"))
        m.obs_frame = list(m.frame)
    except Unsupported as u:
        import effects
        bad = [p for p, pc in m.frame if p not in effects.MODIFIES.get(c.qn, ()) and not unsat(pc0 + [x for x in pc if x is not True])]
        if mode == "frame" and bad:
            obs.append(Ob(f"{base}/frame", "refuted", f"argument {bad[0]} is written to"))
        obs.append(Ob(base, "unsupported", str(u) + where(u)))
    except exe.Raised as r:
        obs.append(Ob(base, "unsupported", f"raised outside exploration: {r.typ}"))
    except exe.NeedBox:
        obs.append(Ob(base, "unsupported", "side effect"))
    except RecursionError:
        obs.append(Ob(base, "unsupported", "recursion"))
    except z3.Z3Exception as e:
        obs.append(Ob(base, "unsupported", f"z3: {e}" + tb(e)))
    except Exception as e:     # an internal error of the verifier is never a verdict on the code
        obs.append(Ob(base, "unsupported", f"internal: {type(e).__name__}: {e}" + tb(e)))
    finally:
        N.DEADLINE[0] = None
    return dict(obs=obs, machine=m, time=time.time() - t0)


def boxes(v):
    if isinstance(v, (exe.Arr, exe.Lst)):
        return {v.box}
    if isinstance(v, tuple):
        return set().union(*[boxes(x) for x in v]) if v else set()
    return set()


def where(u):
    t = u.__traceback__
    last = None
    while t:
        last = t
        t = t.tb_next
    return f" ({last.tb_frame.f_code.co_filename.split('/')[-1]}:{last.tb_lineno})" if last else ""


def tb(e):
    return " | " + " < ".join(f"{x.filename.split('/')[-1]}:{x.lineno}" for x in reversed(traceback.extract_tb(e.__traceback__)[-5:]))


def reach(g, name, reason):
    """an outcome that must not happen: refuted with a model of the path, unknown if the path may be infeasible"""
    return prove_bool(g, False, name, reason)


def bound(f, fro, m):
    """all parameters; those not given have their documented values"""
    qn = f.module.split(".")[-1] + "." + f.name if isinstance(f.module, str) else f.module.name + "." + f.name
    return {**m.bind_args(f.node, [], dict(fro), f.module, f.name), **{k: v for k, v in DEFAULTS.get(qn, {}).items() if k not in fro}}


def default_obs(c, f, m, base):
    """the optional parameters have their documented values"""
    out = []
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    have = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    have.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    doc = DEFAULTS.get(c.qn, {})
    for k in sorted(set(have) | set(doc)):
        nm = f"{base}/default of {k}"
        if k not in have or k not in doc:
            out.append(Ob(nm, "unsupported", "not documented" if k in have else "no default value"))
            continue
        try:
            v = ast.literal_eval(have[k])
        except ValueError:
            out.append(Ob(nm, "unsupported", "not a constant"))
            continue
        w = doc[k]
        if v is w or (type(v) in (int, float, bool) and type(w) in (int, float, bool) and v == w):
            out.append(Ob(nm, "proved"))
        elif bool(v) != bool(w) or (type(v) in (int, float) and type(w) in (int, float)):
            out.append(Ob(nm, "refuted", f"default value {v!r}, documented {w!r}"))
        else:
            out.append(Ob(nm, "unsupported", f"default value {v!r}, documented {w!r}"))
    return out


LEMMAS = {}


class Lemma:
    """an obligation over specification values only (no code): fn(machine) -> obligations"""

    def __init__(self, name, props, fn, budget=None, thorough=False):
        self.name, self.props, self.fn, self.budget, self.thorough = name, props, fn, budget, thorough
        LEMMAS[name] = self


def prove_lemma(l, tier="quick"):
    t0 = time.time()
    N.reset()
    N.GLOBAL_GAMMA[:] = []
    N.DEADLINE[0] = t0 + (l.budget or OBL_BUDGET) * (4 if tier == "thorough" else 1)
    m = exe.Machine({})
    try:
        obs = l.fn(m)
    except Unsupported as u:
        obs = [Ob("lemma:" + l.name, "unsupported", str(u) + where(u))]
    finally:
        N.DEADLINE[0] = None
    return dict(obs=obs, machine=m, time=time.time() - t0)
