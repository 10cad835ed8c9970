"""Contracts of ff_utils.py."""
from cbase import *
from contracts_lib import adj, trace_of


# ---------------------------------------------------------------------------------------------------------------- C12
def kp_args(ka, kb):
    return lambda m: dict(a=arr(m, "a", (intvar(m, "r", 1), intvar(m, "s", 1)), ka), b=arr(m, "b", (intvar(m, "u", 1), intvar(m, "v", 1)), kb))


def spec_kron_plus(m, a):
    x, y = a["a"], a["b"]
    (r, s), (u, v) = x.shape, y.shape

    def el(i, j):
        ti, tj = simp(i < zint(r)), simp(j < zint(s))
        return num(x.at(i, j)).guard(simp(And(ti, tj))) + num(y.at(simp(i - zint(r)), simp(j - zint(s)))).guard(simp(And(Not(ti), Not(tj))))
    p = x.prov
    prov = None
    if p is not None and p[0] == "chain" and not p[1] and not isinstance(p[2], Num):       # summands added to a value carried by a loop
        prov = ("dsum", (y,), p[2])
    elif p is not None and p[0] == "dsum":
        prov = ("dsum", p[1] + (y,), p[2])
    return case(AV((simp(zint(r) + zint(u)), simp(zint(s) + zint(v))), "c", el, prov))


Contract("ff_utils.kron_plus", ["C12"], {f"a:{p},b:{q}": kp_args(p, q) for p in "cfi" for q in "cfi"}, spec_kron_plus)


def pt_args(k, div):
    def f(m):
        d = intvar(m, "d", 1)
        if div:
            e = intvar(m, "e", 1)
            D = simp(d * e)
        else:
            D = intvar(m, "D", 1)
        return dict(AB=arr(m, "AB", (D, D), k), d=d)
    return f


def pt_variants():
    return {f"AB:{k},{'d1*d2' if v else 'any size'}": pt_args(k, v) for k in "cf" for v in (True, False)}


def blocks(m, a):
    AB, d = a["AB"], a["d"]
    D = AB.shape[0]
    divides = simp(zint(D) % zint(d) == 0)
    return AB, d, D, npm.pick(m.pc, simp(zint(D) / zint(d))), divides


def spec_pt1(m, a):
    AB, d, D, e, ok = blocks(m, a)
    A = AV((d, d), "c", lambda p, q: Sum(0, e, lambda j: num(AB.at(simp(j * zint(d) + p), simp(j * zint(d) + q)))))
    return [(ok, ("return", A)), (True, ("raise", "AssertionError"))]


def spec_pt2(m, a):
    AB, d, D, e, ok = blocks(m, a)
    B = AV((d, d), "c", lambda i, j: Sum(0, e, lambda k: num(AB.at(simp(i * zint(e) + k), simp(j * zint(e) + k)))))
    Z = AV((d, d), "c", lambda i, j: num(0))
    im = AV((d, d), "f", lambda i, j: num(B.at(i, j)).imag())
    Br = AV((d, d), "c", lambda i, j: num(B.at(i, j)).real())
    # an imaginary part that numpy's allclose does not tell from zero is dropped
    small = npm.allclose(m, im, Z)
    return [(And(ok, small), ("return", Br)), (ok, ("return", B)), (True, ("raise", "AssertionError"))]


Contract("ff_utils.partial_trace_diagblocksum", ["C12"], pt_variants(), spec_pt1)
Contract("ff_utils.partial_trace_blockTr", ["C12"], pt_variants(), spec_pt2)


# ---------------------------------------------------------------------------------------------------------------- C13
def cplx(x):
    return AV(x.shape, "c", x.at)


def norm1(v):
    return Sum(0, v.shape[0], lambda s: sabs(num(v.at(s)))).with_kind("f")


def norm2(v):
    return ssqrt(Sum(0, v.shape[0], lambda s: num(v.at(s)) * num(v.at(s)).conj()).with_kind("f"))


def close(m, x, y):
    return npm.allclose(m, npm.scalar_av(m, num(x)), npm.scalar_av(m, num(y)))


def flat(x):
    """the entries of a vector (1-D, row or column) in order"""
    if x.ndim == 1:
        return cplx(x)
    r, c = x.shape
    if isinstance(c, int) and c == 1:
        return AV((r,), "c", lambda i: x.at(i, 0))
    return AV((c,), "c", lambda i: x.at(0, i))


def valid_state(m, R):
    n = R.shape[0]
    ev = AV((n,), "b", lambda i: cmp(">=", opaque("eigvalsh", npm.sq_lam(R), (i,), real=True), num(Fr("-1e-12"))))
    return And(close(m, num(1), trace_of(R)), npm.allclose(m, R, AV(R.shape, "c", adj(R).at)), npm.b_all(m, ev))


def vector_states(m, x, call=False):
    """[(condition, matrix)]: the density matrix candidates of a vector"""
    v = flat(x)
    n = v.shape[0]
    P = AV((n, n), "c", lambda i, j: num(v.at(i)) * num(v.at(j)).conj())
    Dg = AV((n, n), "c", lambda i, j: num(v.at(i)).guard(simp(i == j)))
    # entries that are non-negative follow the norm that is closer to one
    pdf = pred("pdflike", (zint(n), v.lam())) if call else And(npm.b_all(m, AV((n,), "b", lambda i: simp(cmp("==", num(v.at(i)), sabs(num(v.at(i))))))),
              cmp("<", sabs(norm1(v) - num(1)), sabs(norm2(v) - num(1))))
    return [(And(close(m, norm2(v), num(1)), Not(pdf)), P), (close(m, norm1(v), num(1)), Dg)]


def is_vector(x):
    """shape classes: 'vector', 'square', 'other', or None if not decided by the shape expressions"""
    if x.ndim == 1:
        return "vector"
    if x.ndim != 2:
        return "other"
    if any(isinstance(d, int) and d == 1 for d in x.shape):
        return "vector"
    return None


def spec_cast_dm(m, a):
    x = m.av(a["rho"]) if not isinstance(a["rho"], AV) else a["rho"]
    k = is_vector(x)
    if k is None and all(valid(m.pc, zint(d) >= 2) for d in x.shape):
        k = "square" if m.same_dim(x.shape[0], x.shape[1]) else "rect"
    if k is None:
        return None
    if k == "vector":
        out = []
        for c, R in vector_states(m, x):
            ok = valid_state(m, R)
            out += [(And(c, ok), ("return", R)), (c, ("raise", "AssertionError"))]
        return out + [(True, ("raise", "ValueError"))]
    if k == "other":
        return case(("raise", "ValueError")) if False else [(True, ("raise", "ValueError"))]
    R = cplx(x)
    sq = simp(zint(x.shape[0]) == zint(x.shape[1]))
    if k == "square":
        R = AV((x.shape[0], x.shape[0]), "c", x.at)
        return [(valid_state(m, R), ("return", R)), (True, ("raise", "AssertionError"))]
    return [(sq, ("return", ANY)), (sq, ("raise", "AssertionError")), (True, ("raise", "ValueError"))] if sq is not False else [(True, ("raise", "ValueError"))]


def dm_args(name="rho", dims=None):
    out = {}
    for k in ("c", "f", "i"):
        out[f"1-D:{k}"] = lambda m, k=k: {name: arr(m, "v", (intvar(m, "n", 1),), k)}
        if k == "c":
            out["column"] = lambda m: {name: arr(m, "v", (intvar(m, "n", 1), 1), "c")}
            out["row"] = lambda m: {name: arr(m, "v", (1, intvar(m, "n", 1)), "c")}
        out[f"square:{k}"] = lambda m, k=k: (lambda n: {name: arr(m, "R", (n, n), k)})(intvar(m, "n", 2))

    def rect(m):
        r, s = intvar(m, "r", 2), intvar(m, "s", 2)
        m.pc.append(r != s)
        return {name: arr(m, "R", (r, s), "c")}
    out["rectangular"] = rect
    return out


def call_cast_dm(m, a):
    """at call sites: the matrix of a valid state, or an exception; which of the two is the predicate `isstate`"""
    x = a["rho"] if isinstance(a["rho"], AV) else m.av(a["rho"]) if isinstance(a["rho"], LV) else None
    if x is None:
        return None
    k = is_vector(x)
    if k is None and all(valid(m.pc, zint(d) >= 2) for d in x.shape) and m.same_dim(x.shape[0], x.shape[1]):
        R = AV((x.shape[0], x.shape[0]), "c", x.at, tags=x.tags if x.tags >= {"herm", "psd", "trace1"} else npm.gram_tags(m, x))
        if R.tags >= {"herm", "psd", "trace1"}:         # a valid state: the conditions of spec_cast_dm hold
            return case(R)
        return [(pred("isstate", npm.sq_lam(R)), ("return", R)), (True, ("raise", "*"))]
    if k == "vector":
        (c2, P), (c1, Dg) = vector_states(m, x, True)
        R = AV(P.shape, "c", lambda i, j: num(P.at(i, j)).guard(c2) + num(Dg.at(i, j)).guard(simp(Not(c2))))
        return [(pred("isstate", npm.sq_lam(R)), ("return", R)), (True, ("raise", "*"))]
    return None


Contract("ff_utils.cast_to_density_matrix", ["C13"], dm_args(), spec_cast_dm, call=call_cast_dm)


def spec_cast_pdf(m, a):
    cs = call_cast_dm(m, a)
    if cs is None:
        return None
    ok, (_, R) = cs[0]
    n = R.shape[0]
    dg = AV((n,), "c", lambda i: num(R.at(i, i)))
    re = AV((n,), "f", lambda i: num(R.at(i, i)).real())
    c = npm.allclose(m, dg, re)
    return [(And(ok, c), ("return", re)), (True, ("raise", "*"))]


Contract("ff_utils.cast_to_pdf", ["C13"], {k: v for k, v in dm_args().items() if k != "rectangular"}, spec_cast_pdf)
