"""Contracts of the seeded random generators (C02, C07, C17, C18): value, state of the generators, type and range errors."""
from cbase import *
import rng
from contracts_lib import adj, expm_av, trace_of, normed, neg, lift, block2
from exe import depends


# ------------------------------------------------------------------------------------------------------ ghost RNG state
def refs(v):
    """everything a state term or value mentions"""
    if isinstance(v, tuple):
        return [y for x in v for y in refs(x)]
    return [v]


def tainted(v, syms):
    try:
        return any(depends(x, syms) for x in refs(v) if not isinstance(x, str) and x is not None)
    except Unsupported:
        return None


def seeded_post(seed):
    """with a seed: neither the result nor the choice of path depends on the entry state of the global generator or on the
    operating system's entropy; without: the global generator is never re-seeded"""
    def post(m, fro, out, gamma, name):
        obs = []
        kind, val = out
        if m.rng_loop:
            raise Unsupported("random numbers drawn in a loop")
        st = m.heap[rng.GLOBAL]
        if seed is None:
            if not isinstance(st, tuple):
                return [Ob(f"{name}/unseeded", "unknown", "state after a loop")]
            ok = rng.root(st) is rng.START or rng.root(st) == rng.START
            obs.append(Ob(f"{name}/unseeded", "proved" if ok else "refuted", "the global generator is seeded although no seed was given"))
            return obs
        bad = []
        for what, v in (("result", val if kind == "return" else None), ("path", tuple(x for x in gamma if x is not True))):
            t = tainted(v, [rng.G0, rng.OS, rng.PYSTART[1]] + rng.CLOCK)
            if t is None or t:
                bad.append((what, t))
        for what in ("result", "path"):
            h = [t for w, t in bad if w == what]
            obs.append(Ob(f"{name}/seeded {what}", "proved" if not h else "unknown" if h[0] is None else "refuted",
                          f"with a seed the {what} depends on the prior state of a random generator"))
        return obs
    return post


def draws(m, dist):
    """the draws of one distribution on this path, last first: (state before, parameters)"""
    st, out = m.heap[rng.GLOBAL], []
    while isinstance(st, tuple) and st[0] == "next":
        if st[2] == dist:
            out.append((st[1], st[3]))
        st = st[1]
    return out


def both(*posts):
    def post(m, fro, out, gamma, name):
        r = []
        for p in posts:
            r += p(m, fro, out, gamma, name)
        return r
    return post


def valid_return(check, errors=None):
    """check(m, args, value, gamma, name) on returns; exceptions are refuted unless errors(args) names them"""
    def post(m, fro, out, gamma, name):
        kind, val = out
        e = errors(fro) if errors else []
        if kind == "raise":
            allowed = [c for c, x in e if x == val.split(".")[-1]]
            g = gamma + [zbool(Not(c)) for c in allowed]
            if any(simp(c) is True for c in allowed):
                return [Ob(f"{name}/raises", "proved")]
            return prove_bool(g, False, f"{name}/raises", f"raises {val}")
        if val is None or kind == "normal":
            return [Ob(f"{name}/returns", "refuted", "returns None")]
        obs = []
        for c, x in e:
            c = simp(c)
            obs += prove_bool(gamma, simp(Not(c)), f"{name}/must raise {x}", f"{x} is not raised") if not isinstance(c, bool) else [Ob(f"{name}/must raise {x}", "proved" if not c else "refuted", f"{x} is not raised")]
        if all(o.status == "proved" for o in obs):
            obs += check(m, fro, val, gamma, name)
        return obs
    return post


def tagged(val, tags, name):
    if not isinstance(val, AV):
        return [Ob(f"{name}/array", "refuted", f"returns {type(val).__name__}")]
    return [Ob(f"{name}/{t}", "proved" if t in val.tags else "unknown", f"not known to be {t}") for t in tags]


def shape(val, want, gamma, name):
    if not isinstance(val, AV) or val.ndim != len(want):
        return [Ob(f"{name}/shape", "refuted", "wrong number of dimensions")]
    out = []
    for k, (a, b) in enumerate(zip(val.shape, want)):
        out += prove_bool(gamma, simp(zint(a) == zint(b)), f"{name}/shape{k}", f"dimension {k} is {a}, expected {b}")
    return out


def unit_column(m, val, D, gamma, name):
    obs = shape(val, (D, 1), gamma, name)
    if any(o.status != "proved" for o in obs):
        return obs
    nrm = Sum(0, val.shape[0], lambda i: num(val.at(i, 0)).conj() * num(val.at(i, 0)))
    return obs + prove_num(gamma, nrm, num(1), f"{name}/unit norm")


def density(m, val, D, gamma, name):
    obs = shape(val, (D, D), gamma, name)
    if any(o.status != "proved" for o in obs):
        return obs
    obs = obs + tagged(val, ("herm", "psd"), name)
    if "trace1" in val.tags:
        return obs + [Ob(f"{name}/trace one", "proved")]
    return obs + prove_num(gamma, trace_of(val), num(1), f"{name}/trace one")


def size_errors(par):
    def f(fro):
        n = fro[par]
        if not is_int(n):
            return [(True, "TypeError")]
        return [(simp(zint(n) <= 0), "ValueError")]
    return f


def seedvar(m):
    """precondition: a seed numpy takes, and one more (some functions seed a second draw with seed + 1)"""
    s = intvar(m, "seed")
    m.pc.append(And(s >= 0, s < 2 ** 32 - 1))
    return s


def sizes(par, lo=None, extra=None, types=True):
    """variants: size symbolic (any integer if lo is None) x seed None / int; sizes that are no integers"""
    out = {}
    for sd in (None, "int"):
        for ex, kw in (extra or {"": {}}).items():
            def f(m, sd=sd, kw=kw):
                d = {par: intvar(m, "n", lo)}
                if sd:
                    d["seed"] = seedvar(m)
                d.update(kw)
                return d
            out[f"seed={sd}{',' if ex else ''}{ex}"] = f
    if types:
        out["float size"] = lambda m: {par: scalar("x", "f")}
        out["string size"] = lambda m: {par: "two"}
    return out


def contract(qn, props, variants, check, errors=None, budget=40):
    for v, mk in variants.items():
        sd = "int" if "seed=int" in v else None
        ps = [valid_return(check, errors)]
        if "size" not in v:
            ps.append(seeded_post(sd))
        POSTS[qn, v] = both(*ps)

    def post(m, fro, out, gamma, name):
        v = name[name.index("[") + 1:name.rindex("]")]
        return POSTS[qn, v](m, fro, out, gamma, name)
    Contract(qn, props, variants, post=post, budget=budget)


POSTS = {}


# ------------------------------------------------------------------------------------------------------------- C02, C18
def check_H(m, a, H, gamma, name):
    n = a["n_sites"]
    d = simp(2 * zint(n))
    obs = shape(H, (d, d), gamma, name)
    if any(o.status != "proved" for o in obs):
        return obs
    i, j = fresh("i"), fresh("j")
    g = gamma + [i >= 0, i < n, j >= 0, j < n]
    e = lambda r, c: num(H.at(simp(r), simp(c)))
    obs += prove_num(g, e(i, j), -e(i + n, j + n).conj(), f"{name}/upper-left is -conj(lower-right)")
    obs += prove_num(g, e(i + n, j), -e(i, j + n).conj(), f"{name}/lower-left is -conj(upper-right)")
    obs += prove_num(g, e(i + n, j + n), e(j + n, i + n).conj(), f"{name}/A Hermitian")
    obs += prove_num(g, e(i, j + n), -e(j, i + n), f"{name}/B antisymmetric")
    if a.get("fixedN") is True:
        obs += prove_num(g, e(i, j + n), num(0), f"{name}/no pairing")
    if not ("float" in name):
        obs.append(Ob(f"{name}/complex", "proved" if H.kind == "c" else "refuted", f"kind {H.kind}"))
    return obs


contract("ff_lib.random_H_generator", ["C02", "C18"], sizes("n_sites", 1, {"": {}, "fixedN=True": dict(fixedN=True), "fixedN=False": dict(fixedN=False)}, types=False), check_H)


# ------------------------------------------------------------------------------------------------------------- C17, C18
def check_rotation(m, a, W, gamma, name):
    n = a["n_sites"]
    if a.get("returnOrb"):
        d = simp(2 * zint(n))
        obs = shape(W, (d, d), gamma, name)
        if any(o.status != "proved" for o in obs):
            return obs
        obs += tagged(W, ("unitary",), name)
        i, j = fresh("i"), fresh("j")
        g = gamma + [i >= 0, i < n, j >= 0, j < n]
        e = lambda r, c: num(W.at(simp(r), simp(c)))
        obs += prove_num(g, e(i, j), e(i + n, j + n).conj(), f"{name}/canonical diagonal blocks")
        obs += prove_num(g, e(i, j + n), e(i + n, j).conj(), f"{name}/canonical off-diagonal blocks")
        return obs
    D = pow2(n)
    obs = shape(W, (D, D), gamma, name)
    if any(o.status != "proved" for o in obs):
        return obs
    return obs + tagged(W, ("herm",) if a.get("returnH") else ("unitary",), name)


contract("ff_lib.random_FF_rotation", ["C17", "C18"],
         sizes("n_sites", 1, {"": {}, "returnH": dict(returnH=True), "returnOrb": dict(returnOrb=True)}, types=False), check_rotation)


def check_ff_state(m, a, val, gamma, name):
    n = a["n_sites"]
    D = pow2(n)
    if a.get("returnH"):
        if not isinstance(val, tuple) or len(val) != 2:
            return [Ob(f"{name}/pair", "refuted", "returnH=True does not return a pair")]
        rho, G = val
    else:
        rho, G = val, None
    obs = unit_column(m, rho, D, gamma, name) if a.get("pure") else density(m, rho, D, gamma, name)
    if G is not None and all(o.status == "proved" for o in obs):
        obs += tagged(G, ("herm",), name + "/generator")
        if a.get("fixedN") and not a.get("pure"):
            obs += no_pairing(m, n, G, gamma, name)
        if a.get("pure"):
            X = AV(G.shape, "c", lambda i, j: num(-1j) * num(G.at(i, j)))
            E = expm_av(X)
            obs += val_eq(rho, AV((D, 1), "c", lambda i, j: num(E.at(i, 0))), gamma, name + "/exp(-iG)|0>")
        else:
            ds = draws(m, "exponential")
            if not ds:
                return obs + [Ob(f"{name}/beta", "unknown", "no exponential draw")]
            st, params = ds[0]
            b = opaque("rng.exponential", (st,) + params, real=True, nonneg=True)
            obs += prove_bool(gamma, simp(zbool(cmp(">=", b, 0))), f"{name}/beta >= 0")
            obs += val_eq(rho, normed(expm_av(AV(G.shape, "c", lambda i, j: -b * num(G.at(i, j))))), gamma, name + "/exp(-beta G)/Tr")
    return obs


def no_pairing(m, n, G, gamma, name):
    """G is the Jordan-Wigner lift of a matrix without pairing blocks; such a lift commutes with the particle number
    (lemma number-conserving)"""
    i, j = fresh("i"), fresh("j")
    x = num(G.at(i, j))
    t = x.terms[0] if len(x.terms) == 1 else None
    if t is None or t.binders or t.guards or len(t.atoms) != 1 or t.atoms[0].sym.fname != "oplift" or t.coef != ONE:
        return [Ob(f"{name}/commutes with N", "unknown", f"the generator is not a lift: {str(x)[:200]}")]
    s = t.atoms[0].sym
    nn, R, al, direct = N.subst_holes(s.args, s, t.atoms[0].idx[:len(s.holes)], t.atoms[0].fidx)
    if direct not in (None, False):
        return [Ob(f"{name}/commutes with N", "unknown", "direct lift")]
    obs = prove_bool(gamma, simp(zint(nn) == zint(n)), f"{name}/sites")
    jw, D = jw_alphas(n), pow2(n)
    k = fresh("k")
    g = gamma + [k >= 0, k < 2 * zint(n), i >= 0, i < zint(D), j >= 0, j < zint(D)]
    obs += prove_num(g, num(al.fn(k, i, j)), num(jw.at(k).at(i, j)), f"{name}/lift of the Jordan-Wigner operators")
    g = gamma + [i >= 0, i < n, j >= 0, j < n]
    obs += prove_num(g, num(R.fn(i, j + n)), num(0), f"{name}/no pairing (upper right)")
    return obs + prove_num(g, num(R.fn(i + n, j)), num(0), f"{name}/no pairing (lower left)")


def flags(*names):
    out = {}
    for k in range(1 << len(names)):
        on = [x for i, x in enumerate(names) if k >> i & 1]
        out["+".join(on)] = {x: True for x in on}
    return out


contract("ff_lib.random_FF_state", ["C07", "C17", "C18"],
         sizes("n_sites", 1, {k: v for k, v in flags("pure", "fixedN", "returnH").items()}, types=False), check_ff_state, budget=60)


def check_qstate(m, a, val, gamma, name):
    return density(m, val, pow2(a[next(iter(a))]), gamma, name)


def check_pure(m, a, val, gamma, name):
    return unit_column(m, val, pow2(a[next(iter(a))]), gamma, name)


contract("ff_random_states.random_qubit_state", ["C17", "C18"], sizes("n"), check_qstate, size_errors("n"))
contract("ff_random_states.random_qubit_pure_state", ["C17", "C18"], sizes("n"), check_pure, size_errors("n"))
contract("ff_random_states.random_FF_state_randH", ["C07", "C17", "C18"], sizes("n_sites"), check_qstate, size_errors("n_sites"))


def check_rotpdf(m, a, val, gamma, name):
    n = a["n_sites"]
    D = pow2(n)
    s = None
    if a.get("returnS"):
        if not isinstance(val, tuple) or len(val) != 2:
            return [Ob(f"{name}/pair", "refuted", "returnS=True does not return a pair")]
        val, s = val
    obs = density(m, val, D, gamma, name)
    if s is not None:
        obs += shape(s, (D,), gamma, name + "/s")
        obs += prove_num(gamma, Sum(0, D, lambda i: num(s.at(i))), num(1), f"{name}/s sums to one")
        i = fresh("i")
        obs += prove_bool(gamma + [i >= 0, i < zint(D)], simp(zbool(cmp(">=", num(s.at(i)), 0))), f"{name}/s >= 0")
    return obs


contract("ff_random_states.random_FF_state_rotPDF", ["C07", "C17", "C18"], sizes("n_sites", None, {"": {}, "returnS": dict(returnS=True)}), check_rotpdf, size_errors("n_sites"), budget=60)
contract("ff_random_states.random_FF_pure_state_W0", ["C17", "C18"], sizes("n_sites"), check_pure, size_errors("n_sites"), budget=60)


# ------------------------------------------------------------------------------------------------------ random bit strings
def post_bits(m, fro, out, gamma, name):
    """k ones and n-k zeros, None if k is not in 0..n"""
    kind, val = out
    n, k = zint(fro["n"]), zint(fro["k"])
    inside = z3.And(k >= 0, k <= n)
    if kind == "raise":
        return prove_bool(gamma, False, f"{name}/raises", f"raises {val}")
    if val is None or kind == "normal":
        return prove_bool(gamma, z3.Not(inside), f"{name}/None", "returns None although 0 <= k <= n")
    obs = prove_bool(gamma, inside, f"{name}/None outside 0..n", "no None although k is not in 0..n") + shape(val, (n,), gamma, name)
    if any(o.status != "proved" for o in obs):
        return obs
    j = fresh("j")
    g = gamma + [j >= 0, j < n]
    e = num(val.at(j))
    obs += prove_num(g, e * e, e, f"{name}/entries 0 or 1")
    obs.append(Ob(f"{name}/integers", "proved" if val.kind == "i" else "refuted", "not an array of integers"))
    return obs + prove_num(gamma, Sum(0, n, lambda q: num(val.at(q))), num(k), f"{name}/k ones")


Contract("ff_utils.generate_random_bitstring", ["C17"], {"": lambda m: dict(n=intvar(m, "n", 0), k=intvar(m, "k"))}, post=post_bits)


# -------------------------------------------------------------------------------------------- occupied states (WN, CN)
def iterated(x, fname="iter"):
    """the iterated linear map a number contains: (opaque atom, number of iterations, kernel, start)"""
    out = {}
    for t in x.terms:
        for a in t.atoms:
            if a.sym.fname == fname:
                out[a.sym.id] = a
    if len(out) != 1:
        return None
    a = next(iter(out.values()))
    n = len(a.sym.holes)
    return (a,) + tuple(N.subst_holes(a.sym.args, a.sym, a.idx[:n], a.fidx))


def occupied(it, n, cnt, D, op, vacuum, gamma, name):
    """the iterated map applies op(j)^ for `cnt` different modes j to the vacuum (lemma occupied-norm: such a column has norm one
    when the op(j) satisfy the anticommutation relations and the vacuum has norm one and is annihilated by every lowering operator)"""
    a, m, M, x0 = it
    n, cnt = zint(n), zint(cnt)
    k, x, y = fresh("k"), fresh("x"), fresh("y")
    modes = [(n, lambda k: n - 1 - k, lambda k: n - 1 - k < cnt), (n, lambda k: k, lambda k: k < cnt),
             (cnt, lambda k: cnt - 1 - k, lambda k: True), (cnt, lambda k: k, lambda k: True)]
    best = None
    for steps, mode, on in modes:
        obs = prove_bool(gamma, simp(zint(m) == steps), f"{name}/number of steps", f"{m} steps")
        if obs[0].status == "proved":
            g = gamma + [k >= 0, k < steps, x >= 0, x < zint(D), y >= 0, y < zint(D)]
            c = simp(on(k)) if on(k) is not True else True
            got = num(M.fn(k, x, z3.IntVal(0), y, z3.IntVal(0)))
            if c is not True:
                obs += prove_num(g + [Not(c)], got, delta(x, y), f"{name}/empty modes are left alone")
                g = g + [c]
            if all(o.status == "proved" for o in obs):
                obs += prove_num(g, got, num(op(simp(mode(k))).at(x, y)), f"{name}/occupied modes are filled by their raising operator")
        if best is None or sum(o.status == "proved" for o in obs) > sum(o.status == "proved" for o in best):
            best = obs
        if all(o.status == "proved" for o in obs):
            break
    g = gamma + [x >= 0, x < zint(D)]
    return best + vacuum(x, x0, g, name)


def drawn_int(gamma):
    """the random integer mentioned in the path conditions (its range is one)"""
    out = {}
    for e in gamma:
        stack = [e] if is_z3(e) else []
        while stack:
            t = stack.pop()
            if z3.is_app(t) and t.decl().name().startswith("rng.randint"):
                out[t.get_id()] = t
            stack += t.children()
    return next(iter(out.values())) if len(out) == 1 else None


def unit_by(m, val, it, D, gamma, name):
    """the result has the norm of the iterated column (a unitary was applied)"""
    a = it[0]
    h = a.idx[:len(a.sym.holes)]
    col = lambda s: Num([Term(ONE, (), (), [Atom(a.sym, h + (zint(s), z3.IntVal(0)), False, a.fidx)])], "c")
    nrm = lambda f: Sum(0, D, lambda i: num(f(i)).conj() * num(f(i)))
    return prove_num(gamma, nrm(lambda i: val.at(i, 0)), nrm(col), f"{name}/norm of the occupied column")


def check_WN(m, a, val, gamma, name):
    n = a["n_sites"]
    D = pow2(n)
    obs = shape(val, (D, 1), gamma, name)
    if any(o.status != "proved" for o in obs):
        return obs
    it = iterated(num(val.at(fresh("x"), 0)))
    if it is None:
        return obs + [Ob(f"{name}/unit norm", "unknown", "not of the form W a_0^ .. a_{N-1}^ |0>")]
    if a.get("N") is not None:
        cnt = a["N"]
    else:
        cnt = drawn_int(gamma)
        if cnt is None:
            return obs + [Ob(f"{name}/number of particles", "unknown", "no integer is drawn")]
        obs += prove_bool(gamma, simp(And(cnt >= 0, cnt <= zint(n))), f"{name}/0 <= N <= n")

    def vacuum(x, x0, g, name):
        return prove_num(g, num(x0.fn(x, z3.IntVal(0))), delta(x, 0), f"{name}/starts from |0..0>")
    obs += unit_by(m, val, it, D, gamma, name)
    return obs + occupied(it, n, cnt, D, lambda j: jw_raise(n, j), vacuum, gamma, name)


def wn_errors(fro):
    e = size_errors("n_sites")(fro)
    N_ = fro.get("N")
    if N_ is None:
        return e
    if not is_int(N_):
        return e + [(True, "ValueError")]
    return e + [(simp(z3.Or(zint(N_) < 0, zint(N_) > zint(fro["n_sites"]))), "ValueError")]


def wn_variants():
    out = sizes("n_sites")
    for sd in (None, "int"):
        out[f"seed={sd},N"] = lambda m, sd=sd: dict(n_sites=intvar(m, "n"), N=intvar(m, "N"), **({"seed": seedvar(m)} if sd else {}))
    out["float N,size"] = lambda m: dict(n_sites=intvar(m, "n"), N=scalar("N", "f"))
    out["string N,size"] = lambda m: dict(n_sites=intvar(m, "n"), N="two")
    return out


contract("ff_random_states.random_FF_pure_state_WN", ["C17", "C18"], wn_variants(), check_WN, wn_errors, budget=60)


def family(x):
    """the operators with the anticommutation relations a number mentions: index -> matrix"""
    out = {}
    for t in x.terms:
        for a in t.atoms:
            if a.sym.fname == "oprot" and "car" in a.sym.attrs:
                out[a.sym.id] = a
    if len(out) != 1:
        return None
    a = next(iter(out.values()))
    h = a.idx[:len(a.sym.holes)]
    return a.sym.attrs["car"], lambda j: AV((0, 0), "c", lambda r, c: Num([Term(ONE, (), (), [Atom(a.sym, h + (zint(j), zint(r), zint(c)), False, a.fidx)])], "c"))


def linear_image(x, a, row):
    """is x = sum_y a(row, y) R(y) with an R that does not depend on row?"""
    for t in x.terms:
        at = [b for b in t.atoms if b.sym is a.sym]
        n = len(a.sym.holes)
        if len(at) != 1 or at[0].conj or not at[0].idx[n].eq(row) or any(N.occurs(row, e) for e in at[0].idx[n + 1:]):
            return False
        rest = [e for b in t.atoms if b is not at[0] for e in b.idx] + list(t.guards) + [e for b in t.binders for e in (b.lo, b.hi)]
        if any(N.occurs(row, e) for e in rest) or any(N.occurs(row, e) for e in at[0].idx[:n]):
            return False
    return bool(x.terms)


def unit_quotient(f, D, gamma, name):
    """f = g / sqrt(S) with S the square norm of g"""
    import num as N
    i = fresh("i")
    com, rest = pull(f(i))
    sq = [sole_arg(Num([Term(ONE, (), (), [b])], "f"), "sqrt") for b in (N.inverse_of(c) for c in com) if b is not None]
    sq = [s for s in sq if s is not None]
    if len(com) != 1 or len(sq) != 1:
        return [Ob(name, "unknown", "no quotient by a norm")]
    g = lambda k: rest.subst([(i, zint(k))])
    return prove_num(gamma, sq[0], Sum(0, D, lambda k: g(k).conj() * g(k)), name)


def check_CN(m, a, val, gamma, name):
    n = a["n_sites"]
    D = pow2(n)
    obs = shape(val, (D, 1), gamma, name)
    if any(o.status != "proved" for o in obs):
        return obs
    it = iterated(num(val.at(fresh("x"), 0)))
    k, x, y, c, e = (fresh(q) for q in "kxyce")
    fam = family(num(it[2].fn(k, x, 0, y, 0))) if it is not None else None
    cnt = drawn_int(gamma)
    if it is None or fam is None or cnt is None:
        return obs + [Ob(f"{name}/unit norm", "unknown", "not of the form b_0^ .. b_{N-1}^ vacuum for operators with the anticommutation relations")]
    obs += prove_bool(gamma, simp(zint(fam[0]) == zint(n)), f"{name}/modes")
    obs += prove_bool(gamma, simp(And(cnt >= 0, cnt <= zint(n))), f"{name}/0 <= N <= n")
    op = fam[1]

    def vacuum(x, x0, g, name):
        """projector onto the vacuum (lemma vacuum-projector) applied to a vector and normalised"""
        v = num(x0.fn(x, z3.IntVal(0)))
        p = iterated(v)
        if p is None or not linear_image(v, p[0], x):
            return [Ob(f"{name}/vacuum", "unknown", "the start is no image of a projector")]
        pa, steps, M, P0 = p
        o = prove_bool(gamma, simp(zint(steps) == zint(n)), f"{name}/projector onto the vacuum of all modes", f"{steps} factors")
        h = g + [q for z in (y, c, e) for q in (z >= 0, z < zint(D))]
        o += prove_num(h, num(P0.fn(x, y)), delta(x, y), f"{name}/projector starts from 1")
        h += [k >= 0, k < zint(n)]
        b = op(k)
        want = delta(x, y) * (delta(e, c) - Sum(0, D, lambda z: num(b.at(e, z)) * num(b.at(c, z)).conj()))
        o += prove_num(h, num(M.fn(k, x, c, y, e)), want, f"{name}/factor 1 - b b^")
        return o + unit_quotient(lambda i: num(x0.fn(i, z3.IntVal(0))), D, gamma, f"{name}/vacuum has norm one")
    obs += unit_by(m, val, it, D, gamma, name)
    return obs + occupied(it, n, cnt, D, op, vacuum, gamma, name)


contract("ff_random_states.random_FF_pure_state_CN", ["C17", "C18"], sizes("n_sites"), check_CN, size_errors("n_sites"), budget=60)


# a stabilizer state; the library draws it with stim's own entropy (no seed): a normalised column
Contract("ff_random_states.random_CHP_state", ["C17"],
         {"": lambda m: dict(n_qubits=intvar(m, "n")), "float size": lambda m: dict(n_qubits=scalar("x", "f")), "string size": lambda m: dict(n_qubits="two")},
         post=both(valid_return(lambda m, a, val, gamma, name: unit_column(m, val, pow2(a["n_qubits"]), gamma, name), size_errors("n_qubits"))))
