"""Contracts of ff_distance_measures.py (and generate_pauli_group)."""
from cbase import *
from contracts_lib import adj, trace_of, corr_entry, majorana, call_cov
from contracts_utils import spec_cast_pdf, call_cast_dm, flat, close


# ---------------------------------------------------------------------------------------------------------------- C14
def pdf(m, x):
    """(condition, real vector) of cast_to_pdf's contract"""
    ok, (_, P) = spec_cast_pdf(m, dict(rho=x))[0]
    return ok, P


def dist1(extra=None, kinds=("1-D:f", "1-D:c", "square:c"), name="p"):
    def mk(kind):
        def f(m):
            n = intvar(m, "n", 1 if kind[0] == "1" else 2)
            sh = (n,) if kind[0] == "1" else (n, n)
            d = {name: arr(m, "p", sh, kind[-1])}
            if extra:
                d.update(extra(m))
            return d
        return f
    return {k: mk(k) for k in kinds}


def dist2(kinds=("1-D:f", "1-D:c", "square:c")):
    def mk(k1, k2):
        def f(m):
            n = intvar(m, "n", 1 if k1[0] == k2[0] == "1" else 2)
            sh = lambda k: (n,) if k[0] == "1" else (n, n)
            return dict(p=arr(m, "p", sh(k1), k1[-1]), q=arr(m, "q", sh(k2), k2[-1]))
        return f
    return {f"p:{a},q:{b}": mk(a, b) for a in kinds for b in kinds if a == b or "square:c" in (a, b) and "1-D:f" in (a, b)}


def ent(P):
    return opaque("entropy", (zint(P.shape[0]), P.lam()), real=True)


def relent(P, Q):
    return opaque("relent", (zint(P.shape[0]), P.lam(), Q.lam()), real=True)


def vec(n, fn):
    return AV((n,), "f", lambda i: num(fn(i)))


def spec1(formula):
    def f(m, a):
        ok, P = pdf(m, a["p"])
        return [(ok, ("return", formula(P))), (True, ("raise", "*"))]
    return f


def spec2(formula):
    def f(m, a):
        o1, P = pdf(m, a["p"])
        o2, Q = pdf(m, a["q"])
        return [(And(o1, o2), ("return", formula(P, Q))), (True, ("raise", "*"))]
    return f


def spec_renyi(m, a):
    ok, P = pdf(m, a["p"])
    n = P.shape[0]
    al = a["a"]
    if exe.inf(al):
        return [(ok, ("return", -npm.slog(opaque("max", npm.sq_lam(P), real=True)))), (True, ("raise", "*"))]
    sh = ent(P)
    zero = npm.slog(num(npm.FUNCS["numpy.count_nonzero"](m, [m.arr(P)], {})))
    if isinstance(al, int) and al in (0, 1):
        return [(ok, ("return", sh if al == 1 else zero)), (True, ("raise", "*"))]
    gen = npm.slog(Sum(0, n, lambda i: spow(sabs(num(P.at(i))), al)).with_kind("f")) * sinv(num(1) - num(al))
    if isinstance(al, int):
        return [(ok, ("return", gen)), (True, ("raise", "*"))]
    return [(And(ok, cmp("==", al, 1)), ("return", sh)), (And(ok, cmp("==", al, 0)), ("return", zero)), (ok, ("return", gen)), (True, ("raise", "*"))]


def order(m):
    a = scalar("a", "f")
    m.pc.append(zbool(cmp(">=", a, 0)))
    return dict(a=a)


Contract("ff_distance_measures.renyi_entropy", ["C14"],
         {**{f"{k},a real": v for k, v in dist1(order).items()}, **{f"{k},a=inf": v for k, v in dist1(lambda m: dict(a=float("inf"))).items()},
          **{f"{k},a={x}": v for x in (0, 1, 2, 3) for k, v in dist1(lambda m, x=x: dict(a=x), ("1-D:f", "square:c")).items()}}, spec_renyi)


def spec_linear(m, a):
    ok, P = pdf(m, a["p"])
    n = P.shape[0]
    s = num(1) - Sum(0, n, lambda i: num(P.at(i)) * num(P.at(i)))
    r = ssqrt(num(n))
    t = npm.b_int(m, [r], {})
    sq = close(m, r - num(t), num(0))
    return [(And(ok, sq), ("return", s)), (True, ("raise", "*"))]


Contract("ff_distance_measures.linear_entropy", ["C14"], dist1(), spec_linear)
Contract("ff_distance_measures.total_variation_distance", ["C14"], dist2(),
         spec2(lambda P, Q: num(Fr(1, 2)) * Sum(0, P.shape[0], lambda i: sabs(num(P.at(i)) - num(Q.at(i))))))
Contract("ff_distance_measures.bhattacharyya_coeff", ["C14"], dist2(),
         spec2(lambda P, Q: Sum(0, P.shape[0], lambda i: ssqrt(num(P.at(i)) * num(Q.at(i))))))
Contract("ff_distance_measures.relative_entropy", ["C14"], dist2(), spec2(relent))


def mid(P, Q):
    return vec(P.shape[0], lambda i: num(Fr(1, 2)) * (num(P.at(i)) + num(Q.at(i))))


Contract("ff_distance_measures.jensen_shannon_divergence", ["C14"], dist2(),
         spec2(lambda P, Q: num(Fr(1, 2)) * (relent(P, mid(P, Q)) + relent(Q, mid(P, Q)))))


# ---------------------------------------------------------------------------------------------------------------- C15
def pauli(k):
    """k-th single-qubit Pauli matrix in the order I, X, Y, Z"""
    return AV((2, 2), "c", lambda i, j: exe.sel(k, [num(ID2.at(i, j)), num(SX.at(i, j)), num(SY.at(i, j)), num(SZ.at(i, j))]))


def pow4(n):
    return exe.ItProd([None] * 4, n).length()


def pauli_list(n):
    """all n-fold products in lexicographic order, rightmost factor fastest"""
    n = simp(n)
    return LV(None, pow4(n), lambda k: chain_av(((n, lambda p: pauli(exe.digitb(4, p, n, k))),), num(1).with_kind("c")))


def spec_paulis(m, a):
    n = a["n"]
    if not is_int(n):
        return [(True, ("raise", "TypeError"))]
    return [(simp(zint(n) <= 0), ("raise", "ValueError")), (True, ("return", pauli_list(n)))]


Contract("ff_lib.generate_pauli_group", ["C15"],
         {"n int": lambda m: dict(n=intvar(m, "n")), "n float": lambda m: dict(n=scalar("x", "f")), "n str": lambda m: dict(n="two"),
          "verbose": lambda m: dict(n=intvar(m, "n"), verbose=True)}, spec_paulis)


def state_args(m, kind="square"):
    n = intvar(m, "n", 1)
    D = pow2(n)
    if kind == "square":
        return dict(rho=arr(m, "rho", (D, D), "c"))
    if kind == "1-D":
        return dict(rho=arr(m, "rho", (D,), "c"))
    return dict(rho=arr(m, "rho", (D, 1), "c"))


def dm_of(m, x):
    ok, (_, R) = call_cast_dm(m, dict(rho=x))[0]
    return ok, R


def stab(m, R):
    """(side conditions that hold for every state, vector of Tr[P_j rho]^2 / (2^n Tr rho^2))"""
    D = R.shape[0]
    n = npm.log2_int(D)
    pur = Sum(0, D, lambda i: Sum(0, D, lambda j: num(R.at(i, j)) * num(R.at(j, i))))
    P = pauli_list(n)
    L = P.length

    def ex(j):
        return Sum(0, D, lambda i: Sum(0, D, lambda k: num(P.at(j).at(i, k)) * num(R.at(k, i))))
    tiny = lambda x: cmp("<", sabs(x.imag()), num(Fr("1e-9")))
    xi = AV((L,), "f", lambda j: ex(j).real() * ex(j).real() * sinv(num(D) * pur.real()))
    j = fresh("j")
    alls = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(L)), zbool(tiny(ex(j)))))
    tot = Sum(0, L, xi.at)
    return And(tiny(pur), alls, close(m, tot, num(1))), xi


def spec_stab(m, a):
    ok, R = dm_of(m, a["rho"])
    side, xi = stab(m, R)
    return [(And(ok, side), ("return", xi)), (True, ("raise", "*"))]


def call_stab(m, a):
    """at call sites: the distribution is the (uninterpreted) function stabdist of the state; its contract defines it"""
    cs = call_cast_dm(m, a)
    if cs is None:
        return None
    ok, (_, R) = cs[0]
    D = R.shape[0]
    key = (zint(D), R.lam())
    L = pauli_list(npm.log2_int(D)).length
    xi = AV((L,), "f", lambda j: opaque("stabdist", key, (j,), real=True))
    return [(And(ok, pred("stabok", key)), ("return", xi)), (True, ("raise", "*"))]


Contract("ff_distance_measures.stabilizer_distribution", ["C15"], {k: (lambda m, k=k: state_args(m, k)) for k in ("square", "1-D", "column")}, spec_stab, call=call_stab, budget=60, thorough=("1-D", "column"))


def count_nonzero(m, x):
    return npm.FUNCS["numpy.count_nonzero"](m, [m.arr(x)], {})


def spec_sre(m, a):
    ok, R = dm_of(m, a["rho"])
    ok2, (_, xi) = call_stab(m, dict(rho=R))[0]
    d = R.shape[0]
    one = simp(zint(count_nonzero(m, xi)) == 1)
    out = [(And(ok, ok2, one), ("return", num(0).with_kind("f")))]
    for c, r in spec_renyi(m, dict(p=xi, a=a["a"])):
        out.append((And(ok, ok2, c), r if r[0] == "raise" else ("return", r[1] - npm.slog(num(d)))))
    return out + [(True, ("raise", "*"))]


def sre_args(extra):
    def f(m):
        n = intvar(m, "n", 1)
        D = pow2(n)
        return dict(rho=arr(m, "rho", (D, D), "c"), **extra(m))
    return f


Contract("ff_distance_measures.SRE", ["C15"], {"a=2": sre_args(lambda m: {}), "a real": sre_args(order), "a=1": sre_args(lambda m: dict(a=1))}, spec_sre, budget=60)


# ---------------------------------------------------------------------------------------------------------------- C16
def spec_trace_distance(m, a):
    oA, RA = dm_of(m, a["A"])
    oB, RB = dm_of(m, a["B"])
    D = AV(RA.shape, "c", lambda i, j: num(RA.at(i, j)) - num(RB.at(i, j)))
    n = D.shape[0]
    ev = lambda i: sabs(opaque("eigvals", npm.sq_lam(D), (i,)))
    return [(And(oA, oB), ("return", num(Fr(1, 2)) * Sum(0, n, ev))), (True, ("raise", "*"))]


def two_states(kinds):
    def f(m):
        n = intvar(m, "n", 2)
        sh = {"square": (n, n), "1-D": (n,), "column": (n, 1)}
        return dict(A=arr(m, "A", sh[kinds[0]], "c"), B=arr(m, "B", sh[kinds[1]], "c"))
    return f


Contract("ff_distance_measures.trace_distance", ["C16"],
         {f"{p},{q}": two_states((p, q)) for p in ("square", "1-D", "column") for q in ("square", "1-D")}, spec_trace_distance)


def cov_of(m, R):
    """(number of sites, M_ij = -i Tr[R (g_i g_j - g_j g_i)]) for the Majorana operators g"""
    n = npm.log2_int(R.shape[0])
    g = LV(None, simp(2 * zint(n)), lambda k: majorana(n, k))
    C = call_cov(m, dict(n_sites=n, alphas=g, rho=R))[0][1][1]
    return n, AV(C.shape, "c", lambda i, j: num(-1j) * num(C.at(i, j)))


def schur_pairs(n, M):
    """squares of the non-zero entries on and above the diagonal of the Schur form of M, row by row"""
    sl = npm.sq_lam(M)
    d = simp(2 * zint(n))
    T = lambda i, j: opaque("schurT", sl, (i, j), real=M.kind != "c")
    i, j = fresh("i"), fresh("j")
    ij = simp(i + j)
    x = T(i, ij)
    return piece_av(Piece(((i, d, False), (j, simp(zint(d) - i), False)), cmp(">", sabs(x), num(Fr("1e-10"))), x * x))


def spec_cov_dist(m, a):
    ok, R = dm_of(m, a["rho"])
    n, M = cov_of(m, R)
    Mr = AV(M.shape, "f", lambda i, j: num(M.at(i, j)).real())
    fro = ssqrt(Sum(0, M.shape[0], lambda i: Sum(0, M.shape[0], lambda j: num(M.at(i, j)).imag() * num(M.at(i, j)).imag())).with_kind("f"))
    real = close(m, fro, num(0))
    return [(And(ok, real), ("return", schur_pairs(n, Mr))), (ok, ("return", schur_pairs(n, M))), (True, ("raise", "*"))]


def call_cov_dist(m, a):
    """at call sites: some list of numbers covdist(rho)_0 .. covdist(rho)_(L-1); the contract above defines it"""
    cs = call_cast_dm(m, a)
    if cs is None:
        return None
    ok, (_, R) = cs[0]
    key = npm.sq_lam(R)
    L = opaque_int("covlen", key)
    N.add_fact(zint(L) >= 0)
    return [(And(ok, pred("covok", key)), ("return", AV((L,), "f", lambda j: opaque("covdist", key, (j,), real=True)))), (True, ("raise", "*"))]


Contract("ff_distance_measures.cov_distribution", ["C16"], {k: (lambda m, k=k: state_args(m, k)) for k in ("square", "1-D")}, spec_cov_dist, call=call_cov_dist, budget=60)


def spec_faf(m, a):
    ok, R = dm_of(m, a["rho"])
    ok2, (_, pm) = call_cov_dist(m, dict(rho=R))[0]
    n = npm.log2_int(R.shape[0])
    k = a["k"]
    tot = Sum(0, pm.shape[0], lambda j: spow(sabs(num(pm.at(j))), k))
    return [(And(ok, ok2), ("return", num(n) - tot)), (True, ("raise", "*"))]


def faf_args(kind):
    def f(m):
        d = state_args(m, "square")
        if kind == "int":
            d["k"] = intvar(m, "k", 1)
        elif kind == "real":
            k = scalar("k", "f")
            m.pc.append(zbool(cmp(">=", k, 1)))
            d["k"] = k
        elif kind is not None:
            d["k"] = kind
        return d
    return f


Contract("ff_distance_measures.FAF", ["C16"], {"k omitted": faf_args(None), "k int": faf_args("int"), "k real": faf_args("real"), "k=1": faf_args(1), "k=3": faf_args(3)}, spec_faf, budget=60)
