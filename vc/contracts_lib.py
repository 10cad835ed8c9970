"""Contracts of ff_lib.py."""
from cbase import *


# ---------------------------------------------------------------------------------------------------------------- C01
Contract("ff_lib.pauli_matrices", ["C01", "C15"], {"": lambda m: {}}, lambda m, a: case((SX, SY, SZ)))

Contract("ff_lib.jordan_wigner_lowering", ["C01"], {"n>=1": lambda m: dict(n_sites=intvar(m, "n", 1))},
         lambda m, a: case(LV(None, a["n_sites"], lambda k: jw_low(a["n_sites"], k))))

Contract("ff_lib.jordan_wigner_alphas", ["C01"], {"n>=1": lambda m: dict(n_sites=intvar(m, "n", 1))},
         lambda m, a: case(jw_alphas(a["n_sites"])))


def majorana(n, k):
    def plus(j):
        x, y = jw_raise(n, j), jw_low(n, j)
        return lambda r, c: (x.at(r, c) + y.at(r, c)) * SQ2I

    def minus(j):
        x, y = jw_raise(n, j), jw_low(n, j)
        return lambda r, c: (y.at(r, c) - x.at(r, c)) * SQ2I * num(-1j)
    d = pow2(n)
    c = simp(zint(k) < zint(n))
    j2 = simp(zint(k) - zint(n))
    return AV((d, d), "c", lambda r, s: ite(c, plus(k)(r, s), minus(j2)(r, s)) if not isinstance(c, bool) else (plus(k)(r, s) if c else minus(j2)(r, s)))


Contract("ff_lib.jordan_wigner_majoranas", ["C01"], {"n>=1": lambda m: dict(n_sites=intvar(m, "n", 1))},
         lambda m, a: case(LV(None, simp(2 * zint(a["n_sites"])), lambda k: majorana(a["n_sites"], k))))


# ---------------------------------------------------------------------------------------------------------------- C02
def two_blocks(kinds):
    def mk(name):
        def f(m, k1, k2):
            n = intvar(m, "n", 1)
            d = dict(n_sites=n, A=arr(m, "A", (n, n), k1))
            if k2:
                d[name] = arr(m, name, (n, n), k2)
            return d
        return f
    return mk


def variants_AB(second):
    out = {}
    for k1 in "cfi":
        for k2 in ("c", "f", "i", None):
            def f(m, k1=k1, k2=k2):
                n = intvar(m, "n", 1)
                d = dict(n_sites=n, A=arr(m, "A", (n, n), k1))
                if k2:
                    d[second] = arr(m, second, (n, n), k2)
                return d
            out[f"A:{k1},{second}:{k2}"] = f
    return out


def spec_H(n, A, B):
    z = lambda i, j: num(0)
    b = B.at if B is not None else z
    return block2(n, lambda i, j: -A.at(i, j).conj(), b, lambda i, j: -num(b(i, j)).conj(), A.at)


def spec_V(n, A, Z):
    z = lambda i, j: num(0)
    b = Z.at if Z is not None else z
    return block2(n, lambda i, j: -num(b(i, j)).conj(), A.at, lambda i, j: -A.at(i, j).conj(), b)


Contract("ff_lib.build_H", ["C02"], variants_AB("B"), lambda m, a: case(spec_H(a["n_sites"], a["A"], a["B"])), kinds=True)
Contract("ff_lib.build_V", ["C02"], variants_AB("Z"), lambda m, a: case(spec_V(a["n_sites"], a["A"], a["Z"])), kinds=True)


def spec_kitaev(n, mu, t, delta_):
    nn = (n, n)
    mu, t, d = num(mu), num(t), num(delta_)
    A = AV(nn, "f", lambda i, j: (-mu).guard(simp(i == j)) + (-t).guard(simp(j == i + 1)) + (-t).guard(simp(i == j + 1)))
    B = AV(nn, "f", lambda i, j: d.guard(simp(j == i + 1)) + (-d).guard(simp(i == j + 1)))
    return spec_H(n, A, B)


Contract("ff_lib.kitaev_chain", ["C02"],
         {k: (lambda m, k=k: dict(n_sites=intvar(m, "n", 1), mu=scalar("mu", k[0]) if k[0] == "f" else intvar(m, "mu"),
                                  t=scalar("t", k[1]) if k[1] == "f" else intvar(m, "t"), delta=scalar("delta", k[2]) if k[2] == "f" else intvar(m, "delta")))
          for k in ("fff", "iii", "iff")},
         lambda m, a: case(spec_kitaev(a["n_sites"], a["mu"], a["t"], a["delta"])))


# ---------------------------------------------------------------------------------------------------------------- C04
def spec_Omega(n):
    s = lambda x: (lambda i, j: delta(i, j) * SQ2I * num(x))
    return block2(n, s(1), s(1), s(1j), s(-1j))


def spec_P(n):
    d = simp(2 * zint(n))
    return AV((d, d), "f", lambda r, c: num(1).guard(simp(And(r < zint(n), c == 2 * r))) + num(1).guard(simp(And(r >= zint(n), c == 2 * (r - zint(n)) + 1))))


def w_at(r, c):
    return exe.sel(r, [exe.sel(c, [num(1), num(-1j)]), exe.sel(c, [num(1j), num(-1)])]) * SQ2I


def spec_K(n):
    d = simp(2 * zint(n))
    Om, P = spec_Omega(n), spec_P(n)
    W = AV((d, d), "c", lambda r, c: num(simp(r / 2 == c / 2)) * w_at(simp(r % 2), simp(c % 2)))
    Ph = AV((d, d), "c", lambda r, c: ite(simp(r < zint(n)), num(1), num(-1j)) * num(simp(r == c)))
    return mm(mm(mm(Ph, P), W), Om)


Contract("ff_lib.build_Omega", ["C04"], {"n>=1": lambda m: dict(N=intvar(m, "n", 1))}, lambda m, a: case(npm.with_tags(spec_Omega(a["N"]), {"unitary"})))      # lemma Omega-unitary
Contract("ff_lib.build_reordering_xx_to_xp", ["C04"], {"n>=1": lambda m: dict(n_sites=intvar(m, "n", 1))}, lambda m, a: case(spec_P(a["n_sites"])))
Contract("ff_lib.build_K", ["C04"], {"n>=1": lambda m: dict(n_sites=intvar(m, "n", 1))}, lambda m, a: case(spec_K(a["n_sites"])))


def int_list_var(m):
    n = intvar(m, "n", 0)
    return dict(permutation=intlist(m, "p", n))


def spec_ptm(m, a):
    p = a["permutation"]
    if isinstance(p, AV):
        if p.ndim != 1 or p.kind != "i":
            return None
        p = LV(None, p.shape[0], lambda k, x=p: exe.as_int(x.at(k)))
    n = p.length
    i, j = fresh("i"), fresh("j")
    inr = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(n)), z3.And(p.at(i) >= 0, p.at(i) < zint(n))))
    inj = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < zint(n)), p.at(i) != p.at(j)))
    M = AV((n, n), "i", lambda r, c: num(simp(r == p.at(c))))
    return [(z3.And(inr, inj), ("return", M)), (True, ("return", None))]


Contract("ff_lib.permutation_to_matrix", ["C04"], {"list": int_list_var}, spec_ptm)


def adj(x):
    return av_T(av_conj(x))


def mateq(name, got, want, gamma=()):
    return val_eq(got, want, list(gamma), name)


def lemma_unitary(name, mk):
    def f(m):
        n = intvar(m, "n", 1)
        x = mk(n)
        one = npm.eye_av(simp(2 * zint(n)), None, "c")
        one = AV(one.shape, "c", one.at)
        return mateq(f"lemma:{name} X X^dagger = 1", mm(x, adj(x)), one, m.pc) + mateq(f"lemma:{name} X^dagger X = 1", mm(adj(x), x), one, m.pc)
    return f


Lemma("Omega-unitary", ["C04"], lemma_unitary("Omega", spec_Omega))
Lemma("reordering-unitary", ["C04"], lemma_unitary("P", spec_P))


def lemma_H(m):
    n = intvar(m, "n", 1)
    A = arr_av("A", (n, n), "c", hermitian=True)
    B0 = arr_av("B0", (n, n), "c")
    B = AV((n, n), "c", lambda i, j: B0.at(i, j) - B0.at(j, i))
    H = spec_H(n, A, B)
    d = simp(2 * zint(n))
    S = block2(n, lambda i, j: num(0), delta, delta, lambda i, j: num(0))
    neg = AV((d, d), "c", lambda i, j: -H.at(i, j).conj())
    return mateq("lemma:build_H Hermitian", adj(H), H, m.pc) + mateq("lemma:build_H particle-hole symmetric", mm(mm(S, H), S), neg, m.pc)


Lemma("H-hermitian", ["C02"], lemma_H)


def lemma_K(m):
    n = intvar(m, "n", 1)
    d = simp(2 * zint(n))
    W = AV((d, d), "c", lambda r, c: num(simp(r / 2 == c / 2)) * w_at(simp(r % 2), simp(c % 2)))
    Ph = AV((d, d), "c", lambda r, c: ite(simp(r < zint(n)), num(1), num(-1j)) * num(simp(r == c)))
    one = AV((d, d), "c", npm.eye_av(d, None, "c").at)
    return mateq("lemma:W W^dagger = 1", mm(W, adj(W)), one, m.pc) + mateq("lemma:Phases unitary", mm(Ph, adj(Ph)), one, m.pc)


Lemma("K-factors-unitary", ["C04"], lemma_K)


# ---------------------------------------------------------------------------------------------------------------- C03
def small_terms(x, sym, thr):
    """guard of a term: every entry of `sym` in it is smaller than thr in magnitude"""


def split_small(x, syms, thr, keep_small):
    """terms of x with coefficient entries below / not below the threshold"""
    out = []
    for t in x.terms:
        g = []
        for a in t.atoms:
            if a.sym in syms:
                e = Num([Term(ONE, (), (), [Atom(a.sym, a.idx, False)])], "f" if a.sym.real else "c")
                g.append(cmp("<", sabs(e), thr))
        if not g:
            out.append(t)
            continue
        cond = Or(*g)
        u = N.mk_term(t.coef, t.binders, t.guards + (zbool(cond) if keep_small else z3.Not(zbool(cond)),), t.atoms)
        if u is not None:
            out.append(u)
    return Num(N.merge(out), x.kind)


def up_to_small(want, syms, thr, extra=()):
    """array equal to `want` except that terms whose coefficient (entry of syms) is below thr may be dropped"""
    def chk(got, gamma, name):
        if not isinstance(got, AV) or got.ndim != want.ndim:
            return [Ob(name, "refuted", "not an array of the expected rank")]
        obs = []
        for k, (p, q) in enumerate(zip(got.shape, want.shape)):
            obs += prove_bool(gamma, simp(zint(p) == zint(q)), f"{name}/shape{k}")
        if any(o.status != "proved" for o in obs):
            return obs
        idx = [fresh("i") for _ in want.shape]
        g = list(gamma) + [z3.And(v >= 0, v < zint(d)) for v, d in zip(idx, want.shape)]
        x, y = num(got.at(*idx)), num(want.at(*idx))
        big = prove_num(g, split_small(x, syms, thr, False), split_small(y, syms, thr, False), f"{name}/kept")
        obs += big
        xs, ys = split_small(x, syms, thr, True), split_small(y, syms, thr, True)
        if N.prove_zero(xs, g)[0] == "proved" or N.prove_equal(xs, ys, g)[0] == "proved":
            obs.append(Ob(f"{name}/dropped", "proved"))
            return obs
        # a smaller threshold: dropped exactly where the code says so
        ok = "unknown"
        for t2 in extra:
            cand = split_small(split_small(y, syms, thr, True), syms, t2, False)
            if N.prove_equal(xs, cand, g)[0] == "proved":
                ok = "proved"
                break
        obs.append(Ob(f"{name}/dropped", ok, "terms below the threshold are neither all kept nor all dropped: " + str(xs)[:300]))
        return obs
    return Pred(chk)


def sym_of(av):
    return av.at(*[z3.IntVal(0)] * av.ndim).terms[0].atoms[0].sym


def build_op_variants():
    out = {}
    for k in "cf":
        for direct in (None, False, True):
            for verbose in (None, True):
                for ak in "cf":
                    if verbose and (k != "c" or ak != "c"):
                        continue
                    if ak == "f" and k == "c":
                        continue

                    def f(m, k=k, direct=direct, verbose=verbose, ak=ak):
                        n, D = intvar(m, "n", 1), intvar(m, "D", 1)
                        d = simp(2 * n)
                        r = dict(n_sites=n, R=arr(m, "R", (d, d), k), alphas=arrlist(m, "al", d, (D, D), ak))
                        if direct is not None:
                            r["direct"] = direct
                        if verbose is not None:
                            r["verbose"] = verbose
                        return r
                    out[f"R:{k},alphas:{ak},direct={direct},verbose={verbose}"] = f
    return out


def op_entry(n, R, alphas, direct, keep=None):
    """sum_ij R_ij alpha_i^dagger alpha_j (keep: threshold below which coefficients are dropped)"""
    d = simp(2 * zint(n))
    D = alphas.at(0).shape

    def el(r, c):
        def ij(i, j):
            x, y = alphas.at(i), alphas.at(j)
            s = Sum(0, D[0] if not direct else D[1], lambda q: (num(x.at(q, r)).conj() if not direct else num(x.at(r, q))) * num(y.at(q, c)))
            w = num(R.at(i, j))
            if keep is not None:
                s = s.guard(N.Not(cmp("<", sabs(w), keep)))
            return w * s
        return Sum(0, d, lambda i: Sum(0, d, lambda j: ij(i, j)))
    return AV((D[1], D[1]), "c", el)


def spec_build_op(m, a):
    if not isinstance(a["alphas"], LV):
        return None
    want = op_entry(a["n_sites"], a["R"], a["alphas"], a["direct"])
    syms = {sym_of(a["R"])}
    return case(up_to_small(want, syms, Fr("1e-10")))


def call_build_op(m, a):
    """callers: the sum over all i, j (dropping coefficients below 1e-10 is rounding)"""
    if not isinstance(a["alphas"], LV) or not is_bool(a["direct"]) or not isinstance(a["direct"], bool):
        return None
    n = a["n_sites"]
    d = simp(2 * zint(n))
    if len(a["R"].shape) != 2 or not all(m.same_dim(x, d) for x in a["R"].shape) or not m.same_dim(a["alphas"].length, d):
        return None
    R, al = a["R"], a["alphas"]
    D = al.at(0).shape
    herm = lift_hermitian(m, n, R, al, a["direct"])
    at = {"hermitian": True} if herm else {}
    W = AV(D, "c", lambda r, c: opaque("oplift", (zint(n), R.lam(), alam(al, D), a["direct"]), (r, c), attrs=at), tags={"herm"} if herm else ())
    return case(W)


def lift_hermitian(m, n, R, al, direct):
    """sufficient conditions of the lemmas lift-hermitian for the lift of R to be Hermitian"""
    if not direct:
        return "herm" in npm.struct_tags(m, R)
    d = simp(2 * zint(n))
    sw = lambda k: simp(z3.If(zint(k) < zint(n), zint(k) + zint(n), zint(k) - zint(n)))
    k = fresh("k")
    g = list(m.pc) + [k >= 0, k < zint(d)]
    if any(o.status != "proved" for o in val_eq(al.at(sw(k)), av_T(av_conj(al.at(k))), g, "")):
        return False
    return npm.entries_equal(m, R, AV(R.shape, "c", lambda i, j: num(R.at(sw(j), sw(i))).conj()))


def alam(al, D):
    return Lam(3, lambda k, r, c: num(al.at(k).at(r, c)), (al.length, D[0], D[1]))


Contract("ff_lib.build_op", ["C03"], build_op_variants(), spec_build_op, call=call_build_op)


def rotate_variants():
    out = {}
    for k in "cf":
        for left in (None, False, True):
            for order in ("C,alphas", "alphas,C"):
                def f(m, k=k, left=left, order=order, verbose=None):
                    L, D = intvar(m, "L", 1), intvar(m, "D", 1)
                    C, al = arr(m, "C", (L, L), k), arrlist(m, "al", L, (D, D), "c")
                    r = dict(C=C, alphas=al) if order == "C,alphas" else dict(C=al, alphas=C)
                    if left is not None:
                        r["Left"] = left
                    return r
                out[f"C:{k},Left={left},{order}"] = f

    def fv(m):
        r = out["C:c,Left=None,C,alphas"](m)
        r["verbose"] = True
        return r
    out["C:c,verbose"] = fv
    return out


def spec_rotate(m, a):
    C, al = a["C"], a["alphas"]
    if isinstance(C, LV):
        C, al = al, C
    if not isinstance(al, LV) or not isinstance(C, AV):
        return None
    L = al.length
    D = al.at(0).shape
    left = a["Left"] is True

    def b(j):
        return AV(D, "c", lambda r, c: Sum(0, L, lambda i: (num(C.at(i, j)).conj() if left else num(C.at(j, i))) * num(al.at(i).at(r, c))))
    syms = {sym_of(C)}
    return case(LV(None, L, lambda j: up_to_small(b(j), syms, Fr("1e-9"))))


def call_rotate(m, a):
    C, al = a["C"], a["alphas"]
    if isinstance(C, LV):
        C, al = al, C
    if not isinstance(al, LV) or not isinstance(C, AV) or C.ndim != 2 or not all(m.same_dim(x, al.length) for x in C.shape):
        return None
    D = al.at(0).shape
    left = a["Left"] is True
    fact = al.fact if al.fact is not None and "unitary" in C.tags and m.same_dim(al.length, simp(2 * zint(al.fact[1]))) and canonical_blocks(m, C, al.fact[1]) else None
    attrs = {"car": zint(fact[1])} if fact else None
    return case(LV(None, al.length, lambda j: AV(D, "c", lambda r, c: opaque("oprot", (zint(al.length), C.lam(), alam(al, D), left), (zint(j), r, c), attrs=attrs)),
                   fact=fact))


def canonical_blocks(m, C, n):
    """C = [[X, Y], [conj Y, conj X]]"""
    i, j = fresh("i"), fresh("j")
    n = zint(n)
    g = list(m.pc) + [i >= 0, i < n, j >= 0, j < n]
    e = lambda r, c: num(C.at(simp(r), simp(c)))
    return N.prove_equal(e(i, j), e(i + n, j + n).conj(), g)[0] == "proved" and N.prove_equal(e(i, j + n), e(i + n, j).conj(), g)[0] == "proved"


Contract("ff_lib.rotate_operators", ["C03"], rotate_variants(), spec_rotate, call=call_rotate)


# ---------------------------------------------------------------------------------------------------------------- C06
def corr_entry(rho, al, i, j, mode):
    x, y = al.at(i), al.at(j)
    D = rho.shape[0]
    if mode == "plain":
        f, g = x.at, y.at
    elif mode == "right":
        f, g = x.at, adj(y).at
    else:
        f, g = adj(x).at, y.at
    return Sum(0, D, lambda p: Sum(0, D, lambda q: Sum(0, D, lambda r: num(rho.at(p, q)) * num(f(q, r)) * num(g(r, p)))))


def spec_2corr(m, a):
    n, al, cj = a["n_sites"], a["alphas"], a["conjugation"]
    if al is None:
        al = jw_alphas(n)
    d = simp(2 * zint(n))
    rho = a["rho"]
    M = lambda mode: AV((d, d), "c", lambda i, j: corr_entry(rho, al, i, j, mode))
    if cj is None:
        return case(M("plain"))
    if isinstance(cj, bool):
        return case(M("right")) if cj else None
    return [(zint(cj) < 0, ("return", M("left"))), (zint(cj) > 0, ("return", M("right"))), (True, ("return", ANY))]


def corr_args(m, alphas=True, cj=None, k="c"):
    n = intvar(m, "n", 1)
    D = pow2(n) if not alphas else intvar(m, "D", 1)
    r = dict(rho=arr(m, "rho", (D, D), k), n_sites=n)
    if alphas:
        r["alphas"] = arrlist(m, "al", simp(2 * n), (D, D), "c")
    if cj == "int":
        r["conjugation"] = intvar(m, "cj")
    elif cj is not None:
        r["conjugation"] = cj
    return r


Contract("ff_lib.compute_2corr_matrix", ["C06"],
         {f"alphas={al},conjugation={cj},rho:{k}": (lambda m, al=al, cj=cj, k=k: corr_args(m, al, cj, k))
          for al in (True, False) for cj in (None, True, "int") for k in ("c", "f") if k == "c" or al}, spec_2corr)


def spec_cov(m, a):
    n, al, rho = a["n_sites"], a["alphas"], a["rho"]
    if n is None:
        e = npm.log2_int(rho.shape[0])
        if e is None:
            return None
        n = e
    if al is None:
        al = jw_alphas(n)
    d = simp(2 * zint(n))
    return case(AV((d, d), "c", lambda i, j: corr_entry(rho, al, i, j, "plain") - corr_entry(rho, al, j, i, "plain")))


def call_cov(m, a):
    """at call sites: c_ij - c_ji for the two-point matrix c_ij = Tr[rho a_i a_j] (kept as a symbol)"""
    n, al, rho = a["n_sites"], a["alphas"], a["rho"]
    n = npm.log2_int(rho.shape[0]) if n is None else n
    if n is None or not isinstance(rho, AV) or al is not None and not isinstance(al, LV):
        return None
    al = jw_alphas(n) if al is None else al
    d = simp(2 * zint(n))
    D = rho.shape[0]
    key = (zint(D), rho.lam(), zint(n), Lam(3, lambda k, i, j: num(m.av(al.at(k)).at(i, j)), (d, D, D)))
    c = lambda i, j: opaque("twopoint", key, (i, j))
    return case(AV((d, d), "c", lambda i, j: c(i, j) - c(j, i)))


def cov_args(m, sites, alphas, k="c"):
    n = intvar(m, "n", 1)
    D = intvar(m, "D", 1) if sites and alphas else pow2(n)
    r = dict(rho=arr(m, "rho", (D, D), k))
    if sites:
        r["n_sites"] = n
    if alphas:
        r["alphas"] = arrlist(m, "al", simp(2 * n), (D, D), "c")
    return r


Contract("ff_lib.compute_cov_matrix", ["C06"],
         {f"n_sites={s},alphas={al}": (lambda m, s=s, al=al: cov_args(m, s, al)) for s in (True, False) for al in (True, False)}, spec_cov, call=call_cov)
Contract("ff_lib.correlation_matrix", ["C06"], {"rho": lambda m: cov_args(m, False, False)},
         lambda m, a: spec_2corr(m, dict(rho=a["rho"], n_sites=npm.log2_int(a["rho"].shape[0]), alphas=None, conjugation=None)))


def algebra_args(m):
    n, D = intvar(m, "n", 1), intvar(m, "D", 1)
    # precondition: every anticommutator is a multiple of the identity
    S = arr_av("S", (simp(2 * n), simp(2 * n)), "c")
    return dict(alphas=arrlist(m, "al", simp(2 * n), (D, D), "c"))


def spec_algebra(m, a):
    al = a["alphas"]
    n = simp(zint(al.length) / 2)
    d = simp(2 * zint(n))
    D = al.at(0).shape[0]

    def anti(i, j):
        x, y = al.at(i), al.at(j)
        return AV((D, D), "c", lambda r, c: Sum(0, D, lambda q: num(x.at(r, q)) * num(y.at(q, c)) + num(y.at(r, q)) * num(x.at(q, c))))

    def zero(i, j):
        Z = AV((D, D), "c", lambda r, c: num(0))
        return npm.allclose(m, anti(i, j), Z)
    return case(AV((d, d), "c", lambda i, j: anti(i, j).at(0, 0).guard(N.Not(zero(i, j)))))


def call_algebra(m, a):
    """for operators with the anticommutation relations (lemma rotated-car: also after a canonical unitary) S = [[0, 1], [1, 0]]"""
    al = a["alphas"]
    if isinstance(al, LV) and al.fact is not None:
        return case(spec_S(al.fact[1]))
    return spec_algebra(m, a)


Contract("ff_lib.compute_algebra_S", ["C06"], {"": algebra_args, "verbose": lambda m: dict(algebra_args(m), verbose=True)}, spec_algebra, call=call_algebra)


# ---------------------------------------------------------------------------------------------------------------- C08
def even_square(name, k):
    def f(m):
        n = intvar(m, "n", 1)
        return {name: arr(m, name, (simp(2 * n), simp(2 * n)), k)}
    return f


def any_matrix(name, k):
    def f(m):
        return {name: arr(m, name, (intvar(m, "r", 1), intvar(m, "s", 1)), k)}
    return f


def spec_S(n, k="c"):
    return block2(n, lambda i, j: num(0), delta, delta, lambda i, j: num(0), k)


def spec_is_symp(m, a):
    U = a["U"]
    n = simp(zint(U.shape[0]) / 2)
    S = spec_S(n, U.kind)
    return case(npm.allclose(m, mm(mm(U, S), av_T(U)), S))


def spec_canonical(m, a):
    L = a["L"]
    d = L.shape[0]
    h = simp(zint(d) / 2)
    M = AV(L.shape, L.kind, lambda i, j: L.at(i, j).guard(simp(And(zint(i) / 2 == zint(j) / 2, zint(i) != zint(j)))))
    neg = AV((L.shape[1], L.shape[0]), L.kind, lambda i, j: -L.at(j, i))
    shape = And(simp(zint(d) % 2 == 0), simp(zint(L.shape[0]) == zint(L.shape[1])))
    if shape is False:
        return case(False)
    sq = AV((d, d), L.kind, L.at)
    ok = And(npm.allclose(m, sq, av_conj(sq)), npm.allclose(m, sq, AV((d, d), L.kind, neg.at)), npm.allclose(m, AV((d, d), L.kind, M.at), sq))
    return [(shape, ("return", ok)), (True, ("return", False))]


def spec_matchgate(m, a):
    M = a["M"]
    four = And(simp(zint(M.shape[0]) == 4), simp(zint(M.shape[1]) == 4))
    e = lambda i, j: num(M.at(i, j))
    inner = e(1, 1) * e(2, 2) - e(1, 2) * e(2, 1)
    corner = e(0, 0) * e(3, 3) - e(0, 3) * e(3, 0)
    return [(four, ("return", npm.allclose(m, npm.scalar_av(m, inner), npm.scalar_av(m, corner)))), (True, ("return", False))]


Contract("ff_lib.is_symp", ["C08"], {f"U:{k}": even_square("U", k) for k in "cf"}, spec_is_symp)
Contract("ff_lib.check_canonical_form", ["C08"], {f"L:{k}": any_matrix("L", k) for k in "cf"}, spec_canonical)
Contract("ff_lib.is_matchgate", ["C08"], {**{f"M:{k}": any_matrix("M", k) for k in "cf"},
         "4x4": lambda m: dict(M=arr(m, "M", (4, 4), "c")), "verbose": lambda m: dict(M=arr(m, "M", (4, 4), "c"), verbose=True)}, spec_matchgate)


# ---------------------------------------------------------------------------------------------------------------- C07
def lift(n, R, al, direct=False):
    D = al.at(0).shape
    return AV(D, "c", lambda r, c: opaque("oplift", (zint(n), R.lam(), alam(al, D), direct), (r, c)))


def expm_av(x):
    return AV(x.shape, kmax(x.kind, "f"), lambda i, j: opaque("expm", npm.sq_lam(x), (i, j), real=x.kind != "c"))


def trace_of(x):
    return Sum(0, x.shape[0], lambda i: num(x.at(i, i)))


def normed(x):
    t = sinv(trace_of(x))
    return AV(x.shape, x.kind, lambda i, j: num(x.at(i, j)) * t)


def neg(x):
    return AV(x.shape, x.kind, lambda i, j: -num(x.at(i, j)))


def spec_gauss(m, a):
    n, H, al = a["n_sites"], a["H"], a["alphas"]
    if al is None:
        al = jw_alphas(n)
    d = H.shape[0]
    two_n = simp(zint(d) == 2 * zint(n))
    out = []
    if two_n is not False and (two_n is True or True):
        X = lift(n, H, al)
        out.append((two_n, ("return", normed(expm_av(neg(X))))))
    out.append((simp(zint(d) == pow2(n)), ("return", normed(expm_av(neg(H))))))
    out.append((True, ("return", ANY)))
    return out


def gauss_args(size, alphas, k):
    def f(m):
        n = intvar(m, "n", 1)
        d = {"2n": simp(2 * n), "2^n": pow2(n), "any": None}[size]
        if d is None:
            d = intvar(m, "d", 1)
        r = dict(n_sites=n, H=arr(m, "H", (d, d), k))
        if alphas:
            D = intvar(m, "D", 1)
            r["alphas"] = arrlist(m, "al", simp(2 * n), (D, D), "c")
        return r
    return f


Contract("ff_lib.generate_gaussian_state", ["C07"],
         {f"H:{s},{k},alphas={al}": gauss_args(s, al, k) for s in ("2n", "2^n", "any") for k in "cf" for al in (False, True) if s != "any" or k == "c"}, spec_gauss)


def lemma_lift_hermitian(m):
    """R Hermitian: the lift sum_ij R_ij alpha_i^dagger alpha_j is Hermitian, for all alphas"""
    n, D = intvar(m, "n", 1), intvar(m, "D", 1)
    d = simp(2 * n)
    X = arr_av("X", (d, d), "c")
    R = AV((d, d), "c", lambda i, j: num(X.at(i, j)) + num(X.at(j, i)).conj())      # every Hermitian matrix has this form
    s = arr_av("al", (d, D, D), "c")
    al = LV(None, d, lambda k: AV((D, D), "c", lambda r, c: s.at(k, r, c)))
    W = op_entry(n, R, al, False)
    return val_eq(W, adj(W), m.pc, "lift-hermitian")


def lemma_lift_direct_hermitian(m):
    """conj(R_ij) = R_{sw j, sw i} and alpha_{sw k} = alpha_k^dagger (sw swaps the halves): the direct lift is Hermitian"""
    n, D = intvar(m, "n", 1), intvar(m, "D", 1)
    d = simp(2 * n)
    X, Y, Z = (arr_av(s, (n, n), "c") for s in "XYZ")
    # every such R is [[X, Y + Y^dagger], [Z + Z^dagger, X^dagger]]
    R = block2(n, lambda i, j: X.at(i, j), lambda i, j: num(Y.at(i, j)) + num(Y.at(j, i)).conj(),
               lambda i, j: num(Z.at(i, j)) + num(Z.at(j, i)).conj(), lambda i, j: num(X.at(j, i)).conj())
    low = arr_av("low", (n, D, D), "c")
    al = LV(None, d, lambda k: AV((D, D), "c", lambda r, c: ite(simp(zint(k) < n), num(low.at(k, c, r)).conj(), num(low.at(simp(zint(k) - n), r, c)))))
    W = op_entry(n, R, al, True)
    return val_eq(W, adj(W), m.pc, "lift-direct-hermitian")


Lemma("lift-hermitian", ["C03", "C07", "C17"], lemma_lift_hermitian)
Lemma("lift-direct-hermitian", ["C03", "C07", "C17"], lemma_lift_direct_hermitian)
