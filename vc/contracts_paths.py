"""Contracts of the state paths (C19)."""
from cbase import *
from contracts_lib import adj


def norm_of(m, e, n):
    return npm.sqrt_of(m, Sum(0, n, lambda i: e(i) * e(i).conj()).with_kind("f"))


def unit_of(m, x):
    """(column of x / |x|, |x|)"""
    v = (lambda i: num(x.at(i))) if x.ndim == 1 else (lambda i: num(x.at(i, 0)))
    n = x.shape[0]
    nrm = norm_of(m, v, n)
    return AV((n, 1), kmaxk(x.kind, "f"), lambda i, j: v(i) * sinv(nrm)), nrm


# ------------------------------------------------------------------------------------------------ get_orthogonal_vectors
def completes(n, col):
    """post-condition: a unitary n x n matrix whose first column is col"""
    def chk(got, gamma, name):
        if not isinstance(got, AV) or got.ndim != 2:
            return [Ob(name, "refuted", "not a matrix")]
        out = []
        for k in range(2):
            out += prove_bool(gamma, simp(zint(got.shape[k]) == zint(n)), f"{name}/shape{k}", f"dimension {k} is {got.shape[k]}")
        if any(o.status != "proved" for o in out):
            return out
        out.append(Ob(f"{name}/unitary", "proved" if "unitary" in got.tags else "unknown", "not known to be unitary"))
        i = fresh("i")
        return out + prove_num(gamma + [i >= 0, i < zint(n)], num(got.at(i, 0)), num(col.at(i, 0)), f"{name}/first column")
    return Pred(chk)


def spec_orth(m, a):
    v = a["v"]
    n = v.shape[0]
    col, nrm = unit_of(m, v)
    zero = npm.allclose(m, npm.scalar_av(m, nrm), npm.scalar_av(m, num(0)))
    return [(zero, ("return", npm.eye_av(n))), (True, ("return", completes(n, col)))]


def call_orth(m, a):
    """at call sites with the first column of the unitary matrix the precondition names: that matrix (see `ray`)"""
    v = a["v"]
    if not isinstance(v, AV) or v.ndim not in (1, 2) or v.ndim == 2 and not same(v.shape[1], 1):
        return None
    n = v.shape[0]
    i = fresh("i")
    try:
        e = N.simplify(num(v.at(i) if v.ndim == 1 else v.at(i, 0)), m.pc + [i >= 0, i < zint(n)])
    except Unsupported:
        return None
    if len(e.terms) != 1 or e.terms[0].binders or e.terms[0].guards or e.terms[0].coef != ONE or len(e.terms[0].atoms) != 1:
        return None
    at = e.terms[0].atoms[0]
    if not at.sym.attrs.get("completion") or at.conj or not same(at.idx[0], i) or not same(at.idx[1], 0) or not m.same_dim(n, at.sym.attrs["unitary"]):
        return None
    return case(AV((n, n), "c" if not at.sym.real else "f", lambda r, c: Num([Term(ONE, (), (), [Atom(at.sym, (r, c))])], "c" if not at.sym.real else "f"), tags={"unitary"}))


def column(k, sh):
    return lambda m: (lambda n: dict(v=arr(m, "v", (n,) if sh == 1 else (n, 1), k)))(intvar(m, "n", 2))


Contract("ff_random_states.get_orthogonal_vectors", ["C19"], {f"{sh}-D:{k}": column(k, sh) for sh in (1, 2) for k in "cf"}, spec_orth, call=call_orth)


# ------------------------------------------------------------------------------------------------------------ the paths
def ray(m, name, n, sh, k):
    """an arbitrary non-zero vector, written as c S[:, 0] with c its norm and S the unitary matrix get_orthogonal_vectors returns
    for its direction (which exists by that function's contract)"""
    S = Sym(name, 2, real=k != "c", attrs={"unitary": n, "completion": True})
    c = Sym("norm_" + name, 0, real=True, nonneg=True)
    cn = Num([Term(ONE, (), (), [Atom(c)])], "f")
    m.pc.append(zbool(cmp(">", cn, 0)))
    e = lambda i: cn * Num([Term(ONE, (), (), [Atom(S, (i, z3.IntVal(0)))])], k)
    return m.arr(AV((n,), k, e) if sh == 1 else AV((n, 1), k, lambda i, j: e(i)))


def rays(sw, sv, kw, kv):
    def f(m):
        n = intvar(m, "n", 2)
        return dict(w=ray(m, "W", n, sw, kw), v=ray(m, "V", n, sv, kv))
    return f


def on_path(m, f, s, g, name, check):
    """obligations about the value of the returned function at s, on each of its paths"""
    if not isinstance(f, exe.Func):
        return [Ob(name, "refuted", f"returns {type(f).__name__}, not a function")]
    m.pc = list(g)
    obs = []
    for i, p in enumerate(m.explore(lambda: m.call_func(f, [s], {}))):
        gamma = list(g) + [x for x in p["pc"] if x is not True]
        if unsat(gamma):
            continue
        m.heap = p["heap"]
        kind, val = p["out"]
        if kind == "raise":
            obs += prove_bool(gamma, False, f"{name}/path{i}", f"raises {val}")
            continue
        m.pc = list(gamma)
        obs += check(m.freeze(val), gamma, f"{name}/path{i}")
    return obs


def post_unitary_path(m, fro, out, gamma, name):
    kind, f = out
    if kind == "raise":
        return prove_bool(gamma, False, f"{name}/raises", f"raises {f}")
    w, nw = unit_of(m, fro["w"])
    v, nv = unit_of(m, fro["v"])
    n = w.shape[0]
    obs = []
    heap = dict(m.heap)

    def norm_one(val, g, nm):
        o = [Ob(nm, "refuted", "not a column")] if not isinstance(val, AV) or val.ndim != 2 else prove_bool(g, simp(And(zint(val.shape[0]) == zint(n), zint(val.shape[1]) == 1)), nm + "/shape")
        if any(x.status != "proved" for x in o):
            return o
        return o + prove_num(g, Sum(0, n, lambda i: num(val.at(i, 0)) * num(val.at(i, 0)).conj()), num(1), nm + "/unit norm")
    for t, check, what in ((0, lambda x, g, nm: val_eq(x, w, g, nm), "path(0)"), (1, lambda x, g, nm: val_eq(x, v, g, nm), "path(1)"),
                           (0.0, lambda x, g, nm: val_eq(x, w, g, nm), "path(0.0)"), (1.0, lambda x, g, nm: val_eq(x, v, g, nm), "path(1.0)"),
                           (scalar("t", "f"), norm_one, "path(t)")):
        m.heap = dict(heap)
        obs += on_path(m, f, t, gamma, f"{name}/{what}", check)
    return obs


def post_linear_path(m, fro, out, gamma, name):
    kind, f = out
    if kind == "raise":
        return prove_bool(gamma, False, f"{name}/raises", f"raises {f}")
    w, nw = unit_of(m, fro["w"])
    v, nv = unit_of(m, fro["v"])
    n = w.shape[0]
    s = scalar("s", "f")
    mix = AV((n, 1), kmaxk(w.kind, v.kind), lambda i, j: s * num(v.at(i, j)) + (num(1) - s) * num(w.at(i, j)))
    nrm = norm_of(m, lambda i: num(mix.at(i, 0)), n)
    g = gamma + [zbool(cmp(">", nrm, 0))]
    want = AV((n, 1), mix.kind, lambda i, j: num(mix.at(i, j)) * sinv(nrm))
    return on_path(m, f, s, g, f"{name}/path(s)", lambda x, g2, nm: val_eq(x, want, g2, nm))


KINDS = [(1, 1, "c", "c"), (2, 2, "c", "c"), (1, 2, "c", "c"), (1, 1, "f", "f"), (2, 2, "f", "c"), (1, 1, "c", "f")]
VARS = {f"w {a}-D:{k},v {b}-D:{l}": rays(a, b, k, l) for a, b, k, l in KINDS}
Contract("ff_random_states.build_unitary_path", ["C19"], VARS, post=post_unitary_path, budget=60)
Contract("ff_random_states.build_linear_path", ["C19"], VARS, post=post_linear_path, budget=60)
