"""Contracts of the symplectic diagonalisations (C05).

Every valid coefficient matrix is H = U D U^dagger with U = Omega^dagger O Omega, O real orthogonal (these U are the canonical
unitary matrices) and D = diag(-d, d); eigh_sp returns such a pair [D, U].  Its callers are verified for H written in terms of the
pair eigh_sp returns."""
from cbase import *
from contracts_lib import adj, spec_Omega


def canon(n, O):
    """Omega^dagger O Omega"""
    Om = spec_Omega(n)
    return npm.with_tags(mm(mm(adj(Om), O), Om), {"unitary"})


tr = npm.av_T


reduced = npm.reduced


def eq(m, x, y, gamma, name):
    """equality of matrix products: equal reduced words, or equal entries"""
    m.pc = list(gamma)
    if npm.words_equal(m, x, y):
        return [Ob(name, "proved")]
    return val_eq(reduced(m, x), reduced(m, y), gamma, name)


def diag_of(n, sgn=(-1, 1)):
    """diag(-d, d)"""
    d = Sym("d", 1, real=True)
    e = lambda i: Num([Term(ONE, (), (), [Atom(d, (zint(i),))])], "f")
    n2 = simp(2 * zint(n))
    return AV((n2, n2), "f", lambda i, j: (ite(simp(i < zint(n)), num(sgn[0]) * e(i), num(sgn[1]) * e(simp(i - zint(n))))).guard(simp(i == j)))


def pair(m):
    """(n, D, U, O) with O an arbitrary real orthogonal and d an arbitrary real vector"""
    n = intvar(m, "n", 1)
    n2 = simp(2 * zint(n))
    O = npm.with_tags(arr_av("O", (n2, n2), "f", unitary=n2), {"unitary"})
    return n, n2, diag_of(n), canon(n, O), O


def named(name, word):
    """a matrix given by its entries (a symbol) and by its factors"""
    r = arr_av(name, word.shape, "c")
    r.mm = word.mm
    return r


def swap(n):
    n2 = simp(2 * zint(n))
    return AV((n2, n2), "f", lambda i, j: num(1).guard(simp(j == i + zint(n))) + num(1).guard(simp(i == j + zint(n))))


def call_eigh(m, a):
    g = m.ghost.get("eigh_sp")
    H = a["H"]
    if g is None or not isinstance(H, AV) or H.ndim != 2:
        return None
    Hg, D, U = g
    if not m.same_dim(H.shape[0], Hg.shape[0]) or not m.same_dim(H.shape[1], Hg.shape[1]) or not (npm.words_equal(m, H, Hg) or npm.entries_equal(m, reduced(m, H), Hg)):
        return None
    return case(LV((m_frz(D), m_frz(U)), 2))


def m_frz(x):
    return x


def in_eigv(m):
    n, n2, D, U, O = pair(m)
    H = mm(mm(U, D), adj(U))
    m.ghost["eigh_sp"] = (H, D, U)
    m.ghost["pair"] = (n, n2, D, U, O)
    return dict(V=m.arr(named("V", mm(swap(n), H))))


def in_eigm(m):
    n, n2, D, U, O = pair(m)
    Om = spec_Omega(n)
    H = mm(mm(U, D), adj(U))
    m.ghost["eigh_sp"] = (H, D, U)
    m.ghost["pair"] = (n, n2, D, U, O)
    return dict(G=m.arr(named("G", mm(mm(mm(mm(O, Om), D), adj(Om)), tr(O)))))


def two_results(val):
    return isinstance(val, LV) and same(val.length, 2) and all(isinstance(val.at(k), AV) and val.at(k).ndim == 2 for k in range(2))


def post_eigv(m, fro, out, gamma, name):
    kind, val = out
    if kind == "raise":
        return prove_bool(gamma, False, f"{name}/raises", f"raises {val}")
    if not two_results(val):
        return [Ob(f"{name}/pair", "refuted", "does not return two matrices")]
    n, n2, D, U, O = m.ghost["pair"]
    L, W = val.at(0), val.at(1)
    V = fro["V"]
    obs = eq(m, mm(mm(tr(W), V), W), L, gamma, name + "/U^T V U")
    obs += eq(m, mm(W, adj(W)), npm.eye_av(n2), gamma, name + "/U unitary")
    obs += eq(m, npm.av_conj(W), mm(mm(swap(n), W), swap(n)), gamma, name + "/U canonical")
    L = reduced(m, L)
    z = AV((n, n), "f", lambda i, j: num(0))
    obs += val_eq(AV((n, n), "c", lambda i, j: L.at(i, j)), z, gamma, name + "/upper block")
    return obs + val_eq(AV((n, n), "c", lambda i, j: L.at(i + zint(n), j + zint(n))), z, gamma, name + "/lower block")


def post_eigm(m, fro, out, gamma, name):
    kind, val = out
    if kind == "raise":
        return prove_bool(gamma, False, f"{name}/raises", f"raises {val}")
    if not two_results(val):
        return [Ob(f"{name}/pair", "refuted", "does not return two matrices")]
    n, n2, D, U, O = m.ghost["pair"]
    L, W = val.at(0), val.at(1)
    G = fro["G"]
    obs = eq(m, mm(mm(tr(W), G), W), L, gamma, name + "/O^T G O")
    obs += eq(m, mm(W, tr(W)), npm.eye_av(n2), gamma, name + "/O orthogonal")
    obs += eq(m, W, npm.av_conj(W), gamma, name + "/O real")
    L = reduced(m, L)
    z = lambda i, j: num(0)
    N_ = zint(n)
    blk = lambda i, j: L.at(i, j + N_).guard(simp(i == j))
    return obs + val_eq(L, block2(n, z, blk, lambda i, j: -blk(i, j), z), gamma, name + "/[[0,D],[-D,0]]")


Contract("ff_lib.eigv_sp", ["C05"], {"": in_eigv}, post=post_eigv, budget=60)
Contract("ff_lib.eigm_sp", ["C05"], {"": in_eigm}, post=post_eigm, budget=60)


# ------------------------------------------------------------------------------------------------------- Schur parametrisation
def schur_pair(m):
    """(n, 2n, T, Z): a real orthogonal Z and a direct sum T of 2 x 2 antisymmetric blocks.  Every real antisymmetric matrix of even
    size is Z T Z^T for the pair schur(.., sort=..) returns for it (trusted), so that the input can be written in terms of that pair"""
    n = intvar(m, "n", 1)
    n2 = simp(2 * zint(n))
    Z = npm.with_tags(arr_av("Z", (n2, n2), "f", unitary=n2), {"unitary"})
    t = Sym("t", 1, real=True)
    e = lambda q: Num([Term(ONE, (), (), [Atom(t, (q,))])], "f")
    T = AV((n2, n2), "f", lambda i, j: Sum(0, n, lambda q: e(q) * (num(1).guard(simp(And(i == 2 * q, j == 2 * q + 1))) - num(1).guard(simp(And(i == 2 * q + 1, j == 2 * q))))))
    m.ghost["schur"] = (mm(mm(Z, T), tr(Z)), T, Z)
    m.ghost["pair"] = (n, n2, T, Z)
    return n, n2, T, Z


def in_can(m):
    n, n2, T, Z = schur_pair(m)
    return dict(G=m.arr(named("G", mm(mm(Z, exe.scale(T, num(-1j))), tr(Z)))))


def mm2(x, y, h):
    """product of matrices of size 2 h, the sum split into pairs"""
    return AV((x.shape[0], y.shape[1]), kmax(x.kind, y.kind), lambda i, j: Sum(0, h, lambda q: num(x.at(i, 2 * q)) * num(y.at(2 * q, j)) + num(x.at(i, 2 * q + 1)) * num(y.at(2 * q + 1, j))))


def blocks_of(m, x, n):
    """q -> the q-th 2 x 2 block of a matrix whose other 2 x 2 blocks vanish, else None"""
    p, q = fresh("p"), fresh("q")
    g = list(m.pc) + [p >= 0, p < zint(n), q >= 0, q < zint(n), p != q]
    for r in range(2):
        for s in range(2):
            if any(o.status != "proved" for o in prove_num(g, x.at(2 * p + r, 2 * q + s), num(0), "")):
                return None
    g = list(m.pc) + [q >= 0, q < zint(n)]
    e = {(r, s): N.simplify(num(x.at(2 * q + r, 2 * q + s)), g) for r in range(2) for s in range(2)}
    pick = lambda q2, r, s: exe.sel(r, [exe.sel(s, [e[u, v].subst([(q, zint(q2))]) for v in range(2)]) for u in range(2)])
    return lambda q2: AV((2, 2), x.kind, lambda r, s: pick(q2, r, s))


def snap(m, x):
    """the same matrix, its entries simplified once"""
    i, j = fresh("i"), fresh("j")
    e = N.simplify(num(x.at(i, j)), list(m.pc) + [i >= 0, i < zint(x.shape[0]), j >= 0, j < zint(x.shape[1])])
    return AV(x.shape, x.kind, lambda a, b: e.subst([(i, zint(a)), (j, zint(b))]))


def by_blocks(m, x, n):
    """(q -> the q-th diagonal block, the matrix); None for the blocks of a matrix which is not block diagonal"""
    w = npm.reduce_word(m, npm.word(x)) if x.mm is not None else [x]
    fs = [blocks_of(m, f, n) for f in w]
    if all(f is not None for f in fs):
        def block(q):
            e = lambda k, r, s: num(fs[k](q).at(r, s))
            y = {(r, s): e(0, r, s) for r in range(2) for s in range(2)}
            for k in range(1, len(fs)):
                y = {(r, s): y[r, 0] * e(k, 0, s) + y[r, 1] * e(k, 1, s) for r in range(2) for s in range(2)}
            return y
        return block, None
    r = w[0]
    for f in w[1:]:
        r = mm2(r, f, n)
    return None, r


def post_can(m, fro, out, gamma, name):
    kind, val = out
    if kind == "raise":
        return prove_bool(gamma, False, f"{name}/raises", f"raises {val}")
    if not two_results(val):
        return [Ob(f"{name}/pair", "refuted", "does not return two matrices")]
    n, n2, T, Z = m.ghost["pair"]
    L, O = val.at(0), val.at(1)
    gamma = [x for x in gamma if not z3.is_quantifier(x)]
    obs = eq(m, mm(mm(tr(O), fro["G"]), O), L, gamma, name + "/O^T G O")
    obs += blocks_orthogonal(m, O, n, n2, gamma, name)
    obs += eq(m, O, npm.av_conj(O), gamma, name + "/O real")
    m.pc = list(gamma)
    B, X = by_blocks(m, L, n)
    p, q = fresh("p"), fresh("q")
    g = gamma + [p >= 0, p < zint(n), q >= 0, q < zint(n)]
    for r in range(2):
        for s in range(2):
            if B is None:
                obs += prove_num(g + [p != q], X.at(2 * p + r, 2 * q + s), num(0), f"{name}/off-diagonal blocks [{r},{s}]")
            if r <= s:
                a, b = (B(p)[r, s], B(p)[s, r]) if B is not None else (num(X.at(2 * p + r, 2 * p + s)), num(X.at(2 * p + s, 2 * p + r)))
                obs += prove_num(g, a + b, num(0), f"{name}/antisymmetric [{r},{s}]")
    return obs


def blocks_orthogonal(m, O, n, n2, gamma, name):
    """O^T O = 1"""
    m.pc = list(gamma)
    B, X = by_blocks(m, mm(tr(O), O), n)
    p, q = fresh("p"), fresh("q")
    g = gamma + [p >= 0, p < zint(n), q >= 0, q < zint(n)]
    obs = []
    for r in range(2):
        for s in range(2):
            if B is not None:
                obs += prove_num(g, B(p)[r, s], num(int(r == s)), f"{name}/O orthogonal [{r},{s}]")
            else:
                obs += prove_num(g, X.at(2 * p + r, 2 * q + s), num(simp(p == q)) if r == s else num(0), f"{name}/O orthogonal [{r},{s}]")
    return obs


Contract("ff_lib.eigm_sp_can", ["C05"], {"": in_can}, post=post_can, budget=60)


# ------------------------------------------------------------------------------------------------------------ eigh_sp itself
def abstract(m, r):
    """entries for products of many factors: the entries of the reduced product if that is real, else symbols (of which one half
    determines the other if the product is canonical); the factors are kept"""
    w = npm.word(r)
    if len(w) < 4 or r.shape[0] is not r.shape[1] and not same(r.shape[0], r.shape[1]):
        return r
    n = m.ghost["pair"][0]
    x = arr_av(f"M{next(N._fresh)}", r.shape, r.kind)
    if len(w) <= 12:
        rw = npm.reduce_word(m, w)
        if len(rw) < 3 or all(f.kind != "c" or npm.concrete(m, f) or len(rw) < 4 for f in rw) and npm.real_word(m, r) is not None:
            q = npm.reduced(m, r)
            x = AV(q.shape, q.kind, q.at, None, r.tags)
            x.mm = r.mm
            return x
        if same(r.shape[0], simp(2 * zint(n))) and npm.words_equal(m, npm.av_conj(r), mm(mm(swap(n), r), swap(n))):
            opp = lambda j: z3.If(zint(j) < zint(n), zint(j) + zint(n), zint(j) - zint(n))
            h = x
            x = AV(r.shape, r.kind, lambda i, j: ite(simp(i < zint(n)), h.at(i, j), num(h.at(simp(i - zint(n)), simp(i - zint(n) if same(i, j) else opp(j)))).conj()))
    x.mm = r.mm
    return npm.with_tags(x, r.tags)


def in_eigh(m):
    n, n2, T, Z = schur_pair(m)
    Om = spec_Omega(n)
    m.ghost["abstract"] = abstract
    return dict(H=m.arr(named("H", mm(mm(mm(mm(adj(Om), Z), exe.scale(T, num(-1j))), tr(Z)), Om))))


def factor_unitary(m, f, n, n2, gamma, name):
    """a factor of the returned matrix is unitary"""
    if "unitary" in f.tags:
        return [Ob(name, "proved")]
    m.pc = list(gamma)
    obs = val_eq(mm(adj(f), f), npm.eye_av(n2), gamma, name)
    if all(o.status == "proved" for o in obs):
        return obs
    b = pair_blocks(m, f, n, INTER, INTER)
    if b is None:
        return obs
    q = fresh("q")
    g = gamma + [q >= 0, q < zint(n)]
    e, obs = b(q), []
    for r in range(2):
        for s in range(2):
            obs += prove_num(g, e[r, 0] * e[s, 0].conj() + e[r, 1] * e[s, 1].conj(), num(int(r == s)), f"{name} [{r},{s}]")
    return obs


def product(fs):
    r = fs[0]
    for f in fs[1:]:
        r = mm(r, f)
    return r


def canonical(m, w, n):
    """conj(X) = S X S for the product, by a split into canonical products"""
    S = swap(n)
    if is_diagonal(m, w[0]):
        q = fresh("q")
        g = list(m.pc) + [q >= 0, q < zint(n)]
        a, b = tidy(num(w[0].at(q, q)).conj(), g), tidy(num(w[0].at(q + zint(n), q + zint(n))), g)
        if all(o.status == "proved" for o in prove_num(g, a, b, "")):
            return len(w) == 1 or canonical(m, w[1:], n)
    for k in range(1, len(w) + 1):
        x = product(w[:k])
        y = mm(mm(S, x), S)
        if npm.words_equal(m, npm.av_conj(x), y) if k > 1 else npm.entries_equal(m, npm.av_conj(x), reduced(m, y)):
            return k == len(w) or canonical(m, w[k:], n)
    return False


def is_diagonal(m, f):
    i, j = fresh("i"), fresh("j")
    g = list(m.pc) + [i >= 0, i < zint(f.shape[0]), j >= 0, j < zint(f.shape[0]), i != j]
    return all(o.status == "proved" for o in prove_num(g, f.at(i, j), num(0), ""))


INTER = lambda n: lambda q, r: 2 * q + r          # rows (columns) 2q, 2q+1 belong together
SPLIT = lambda n: lambda q, r: q + r * zint(n)    # rows (columns) q, q+n belong together


def tidy(e, g):
    """the number with the parts of its guards that follow from g left out; constants recognised"""
    memo = {}

    def known(c):
        k = c.get_id()
        if k not in memo:
            memo[k] = True if N.unsat(g + [z3.Not(c)]) else False if N.unsat(g + [c]) else None
        return memo[k]

    def cut(c):
        if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
            ch = [cut(x) for x in c.children()]
            return z3.Not(ch[0]) if z3.is_not(c) else z3.And(*ch) if z3.is_and(c) else z3.Or(*ch)
        v = known(c)
        return c if v is None else z3.BoolVal(v)
    out = []
    for t in N.simplify(e, g).terms:
        u = N.mk_term(t.coef, t.binders, tuple(z3.simplify(cut(c)) for c in t.guards) if not t.binders else t.guards, t.atoms)
        if u is not None:
            out.append(u)
    r = N.Num(N.merge(out), e.kind)
    if len(r.terms) > 1 and all(not t.binders and all(a.sym.args is None and not a.idx for a in t.atoms) for t in r.terms):
        for t in r.terms:                 # a constant, if the guards allow one at all
            env = g + list(t.guards)
            one = num(0)
            for u in r.terms:
                if not u.guards or N.check(env + list(u.guards))[0] == "sat":
                    one = one + N.Num([N.Term(u.coef, (), (), u.atoms)], e.kind)
            if all(o.status == "proved" for o in prove_num(g, r, one, "")):
                return one
    return r


def pair_blocks(m, x, n, row, col):
    """q -> the 2 x 2 block of the rows row(q, .) and columns col(q, .), if all the other such blocks vanish, else None"""
    row, col = row(n), col(n)
    p, q = fresh("p"), fresh("q")
    g = list(m.pc) + [p >= 0, p < zint(n), q >= 0, q < zint(n), p != q]
    keep, N.TIMEOUT_MS = N.TIMEOUT_MS, 500
    try:
        for r in range(2):
            for s in range(2):
                if any(o.status != "proved" for o in prove_num(g, x.at(row(p, r), col(q, s)), num(0), "")):
                    return None
    finally:
        N.TIMEOUT_MS = keep
    g = list(m.pc) + [q >= 0, q < zint(n)]
    e = {(r, s): tidy(num(x.at(row(q, r), col(q, s))), g) for r in range(2) for s in range(2)}
    return lambda q2: {k: v.subst([(q, zint(q2))]) for k, v in e.items()}


def times(n, a, b, m):
    """the blocks of a product of two block matrices, entries simplified"""
    q = fresh("q")
    g = list(m.pc) + [q >= 0, q < zint(n)]
    A, B = a(q), b(q)
    e = {(r, s): tidy(A[r, 0] * B[0, s] + A[r, 1] * B[1, s], g) for r in range(2) for s in range(2)}
    return lambda q2: {k: v.subst([(q, zint(q2))]) for k, v in e.items()}


def fold(m, w, n):
    """the 2 x 2 blocks (rows and columns q, q+n) of a product with a block diagonal factor in its middle, from there outwards"""
    if len(w) % 2 == 0:
        raise Unsupported("product without a centre")
    c = len(w) // 2
    fx, mode = pair_blocks(m, w[c], n, INTER, INTER), INTER
    for d in range(1, c + 1):
        a, b = w[c - d], w[c + d]
        if fx is None:
            raise Unsupported("middle of the product not block diagonal")
        for out in (mode, SPLIT if mode is INTER else INTER):
            fb = pair_blocks(m, b, n, mode, out)
            fa = fb and pair_blocks(m, a, n, out, mode)
            if fa:
                fx, mode = times(n, times(n, fa, fx, m), fb, m), out
                break
        else:
            if mode is not INTER:
                raise Unsupported("factor not block diagonal")
            el = lambda i, j, fx=fx: exe.sel(simp(i % 2), [exe.sel(simp(j % 2), [fx(simp(i / 2))[r, s] for s in range(2)]) for r in range(2)])
            y = AV(w[c].shape, "c", lambda i, j, el=el: num(el(zint(i), zint(j))).guard(simp(zint(i) / 2 == zint(j) / 2)))
            fx = pair_blocks(m, mm2(snap(m, mm2(a, y, n)), b, n), n, INTER, INTER)
    if mode is not SPLIT:
        raise Unsupported("product not block diagonal in the sites")
    return fx


def sum_rs(f):
    return f(0, 0) + f(0, 1) + f(1, 0) + f(1, 1)


def post_eigh(m, fro, out, gamma, name):
    kind, val = out
    if kind == "raise":
        return prove_bool(gamma, False, f"{name}/raises", f"raises {val}")
    if not two_results(val):
        return [Ob(f"{name}/pair", "refuted", "does not return two matrices")]
    n, n2, T, Z = m.ghost["pair"]
    L, W = val.at(0), val.at(1)
    m.pc = list(gamma)
    obs = eq(m, L, mm(mm(adj(W), fro["H"]), W), gamma, name + "/L = U^dagger H U")
    w = npm.reduce_word(m, npm.word(W))
    for k, f in enumerate(w):
        obs += factor_unitary(m, f, n, n2, gamma, f"{name}/U unitary ({k})")
    m.pc = list(gamma)
    ok = canonical(m, w, n)
    obs += [Ob(name + "/U canonical", "proved")] if ok else val_eq(npm.av_conj(W), mm(mm(swap(n), W), swap(n)), gamma, name + "/U canonical")
    m.pc = list(gamma)
    lw = npm.reduce_word(m, npm.word(L))
    while len(lw) > 2 and npm.is_adjoint(m, lw[0], lw[-1]) and is_diagonal(m, lw[-1]) and \
            all(o.status == "proved" for o in factor_unitary(m, lw[-1], n, n2, gamma, "")):
        lw = lw[1:-1]                     # a diagonal unitary D leaves a diagonal X = D^dagger X D unchanged
    f = fold(m, lw, n)
    q = fresh("q")
    g = gamma + [q >= 0, q < zint(n)]
    X = f(q)
    obs += prove_num(g, X[0, 1], num(0), name + "/L diagonal (upper)") + prove_num(g, X[1, 0], num(0), name + "/L diagonal (lower)")
    obs += prove_num(g, X[0, 0], X[0, 0].conj(), name + "/L real (upper)") + prove_num(g, X[1, 1], X[1, 1].conj(), name + "/L real (lower)")
    return obs + prove_num(g, X[0, 0] + X[1, 1], num(0), name + "/lower block = - upper block")


Contract("ff_lib.eigh_sp", ["C05"], {"": in_eigh}, post=post_eigh, call=call_eigh, budget=60)
