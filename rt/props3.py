"""Run-time contracts, part 3: distance measures, random states, determinism, frame conditions (C14-C18, C21)."""
import copy
import itertools
import math
import random
import networkx as nx
import numpy as np
from core import require, eq, eqw, close, raises, ContractBroken, epsilons, bigs  # noqa: F401
import oracle as O
import ff
from ff import ff_distance_measures as DM
from ff import ff_graph_theory as GT
from ff import ff_lib as L
from ff import ff_random_states as RS
from ff import ff_utils as UT
from ff import ff_combinatorics as CB


# ---------------------------------------------------------------- C14
def dists(rng, n):
    e = np.zeros(n)
    e[int(rng.integers(n))] = 1
    p = rng.dirichlet(np.ones(n))
    s = p.copy()
    s[rng.permutation(n)[: n // 2]] = 0
    s = s / s.sum() if s.sum() else e
    h = np.zeros(n)
    h[: (n + 1) // 2] = 1
    t = np.zeros(n)
    t[n // 2:] = 1
    tiny = p.copy()
    tiny[0] = 1e-7
    tiny /= tiny.sum()
    faint = p.copy()
    faint[0], faint[-1] = 1e-250, 1e-15         # outcomes far below any closeness still count in orders below one and in divergences
    faint /= faint.sum() if n > 2 else 1
    return {"rand": p, "rand2": rng.dirichlet(0.3 * np.ones(n)), "uniform": np.ones(n) / n, "basis": e, "sparse": s,
            "head": h / h.sum(), "tail": t / t.sum(), "tiny": tiny, "geom": 0.5 ** np.arange(n) / np.sum(0.5 ** np.arange(n)),
            "near": (1 - 5e-6) * e + 5e-6 * p, "nearer": (1 - 1e-9) * e + 1e-9 * p, **({"faint": faint} if n > 2 else {})}


def as_state(p, kind, rng):
    if kind == "vector":
        return p
    if kind == "matrix":
        return np.diag(p)
    if kind == "ket":
        return np.sqrt(p) * np.exp(1j * rng.random(len(p)))
    if kind == "coherent":
        d = len(p)
        M = np.diag(p).astype(complex)
        for i in range(d - 1):
            c = 0.3 * np.sqrt(p[i] * p[i + 1]) * np.exp(1j * rng.random())
            M[i, i + 1], M[i + 1, i] = c, np.conj(c)
        return M
    raise KeyError(kind)


def C14(ctx):
    def same(name, got, want, **w):
        require(np.ndim(got) == 0, f"{name}: not a scalar", got=got, **w)
        ok = (np.isinf(want) and got == want) or (np.isfinite(want) and np.isfinite(got)
                                                  and abs(complex(got) - want) <= 2e-7 * max(1, abs(want)))
        require(ok, f"{name}: formula violated", got=got, want=want, **w)

    def ren(p, x, a, k):
        same(f"renyi_entropy a={a!r} {k}", DM.renyi_entropy(x, a), O.renyi(p, a), p=p, x=x)

    def lin(p, x, k):
        r = int(round(math.sqrt(len(p))))
        if r * r == len(p):
            same(f"linear_entropy {k}", DM.linear_entropy(x), 1 - np.sum(p * p), p=p)
        else:
            raises(AssertionError, lambda: DM.linear_entropy(x), f"linear_entropy of length {len(p)}")

    def two(p, q, x, y, k):
        w = dict(p=p, q=q)
        m = (p + q) / 2
        same(f"relative_entropy {k}", DM.relative_entropy(x, y), O.kl(p, q), **w)
        same(f"jensen_shannon_divergence {k}", DM.jensen_shannon_divergence(x, y), (O.kl(p, m) + O.kl(q, m)) / 2, **w)
        same(f"total_variation_distance {k}", DM.total_variation_distance(x, y), np.abs(p - q).sum() / 2, **w)
        same(f"bhattacharyya_coeff {k}", DM.bhattacharyya_coeff(x, y), np.sqrt(p * q).sum(), **w)

    orders = [0, 1, 2, 3, 0.5, 0.25, 1.5, 2.0, 1.0, 0.0, 7, 10, 0.9, 1.1, 0.99, 1.01, 1.001, 0.999, 4, 5, 20, np.inf, 1e-2, 50, 0.05, 100, 250]
    orders += [x for x in ctx.mags(1e-12, 900, False) if x not in orders]
    orders += [400, 1000, 1e-3] + [a for a in bigs(1.01, 2000) if a not in orders][:12]
    for n in ctx.large(10, 1100) + [2, 3, 4, 5, 8, 9, 16, 25] + ([64] if ctx.quick else [49, 64, 81]):
        for rep in range(1 if ctx.quick or n > 81 else 5):
            rng = ctx.rng("C14", n, rep)
            D = dists(rng, n)
            for kp, p in D.items():
                for form in ("vector", "matrix", "ket", "coherent"):
                    if (n > 16 and form != "vector"):
                        continue
                    x = as_state(p, form, rng)
                    for a in orders:
                        if form not in ("vector", "matrix") and a not in (0, 1, 2, 0.5, np.inf, 3):
                            continue
                        if form in ("ket", "coherent") and a == 0:
                            continue            # |z|^2 of a stored zero amplitude may round to a non-zero value
                        if form == "coherent" and a < 1 and kp in ("tiny", "faint"):
                            continue
                        yield f"renyi {kp} {form} a={a!r} n={n} #{rep}", lambda b=(p, x, a, f"{kp},{form}"): ren(*b)
                    yield f"linear {kp} {form} n={n} #{rep}", lambda b=(p, x, f"{kp},{form}"): lin(*b)
            for (kp, p), (kq, q) in itertools.product(D.items(), D.items()):
                for fp, fq in (("vector", "vector"), ("matrix", "matrix"), ("vector", "matrix"), ("ket", "coherent")):
                    if n > 9 and fp != "vector":
                        continue
                    if fp == "ket" and (np.any(p == 0) or np.any(q == 0)):
                        continue
                    yield (f"two {kp} {kq} {fp} {fq} n={n} #{rep}",
                           lambda b=(p, q, as_state(p, fp, rng), as_state(q, fq, rng), f"{kp},{kq},{fp},{fq}"): two(*b))


# ---------------------------------------------------------------- C15
def C15(ctx):
    def grp(n, verbose=None):
        got = L.generate_pauli_group(n) if verbose is None else L.generate_pauli_group(n, verbose=verbose)
        require(len(got) == 4 ** n, "generate_pauli_group: length", n=n, got=len(got))
        for k, w in enumerate(O.paulis(n)):
            require(np.shape(got[k]) == w.shape and np.allclose(got[k], w, atol=1e-12), "generate_pauli_group: element", n=n, k=k)

    def st(rho, x, label):
        n = int(round(math.log2(rho.shape[0])))
        pur = np.trace(rho @ rho).real
        E = np.array([np.trace(P @ rho).real for P in O.paulis(n)])
        want = E ** 2 / (2 ** n * pur)
        got = DM.stabilizer_distribution(x)
        eq(f"stabilizer_distribution({label})", got, want, 1e-8, x=x)
        eqw(f"stabilizer_distribution({label}, entry by entry)", got, want,
            (1e-14 * np.abs(E) + 1e-12 * E ** 2 + 1e-28) / (2 ** n * pur), x=x)
        require(np.min(got) >= 0 and abs(np.sum(got) - 1) < 1e-7, f"stabilizer_distribution({label}): not a distribution", x=x)
        for a in [2, 1, 0.5, 3, np.inf, 1.5, 10, "default", 0] + (ctx.mags(0.3, 40, False) if n < 3 else []):
            if a == 0:
                if np.any((want > 0) & (want < 1e-10)):
                    continue
            nz = got[np.nonzero(got)]
            r = DM.SRE(x) if a == "default" else DM.SRE(x, a)
            aa = 2 if a == "default" else a
            wv = 0.0 if len(nz) == 1 else O.renyi(got, aa) - n * math.log(2)
            require(np.ndim(r) == 0 and np.isfinite(r) and abs(r - wv) < 1e-6, f"SRE({label}, a={a!r})", got=r, want=wv, x=x)

    def e0(d, k):
        e = np.zeros(d)
        e[k] = 1
        return e

    for n in (1, 2, 3, 4) + (() if ctx.quick else (5,)):
        yield f"group n={n}", lambda n=n: grp(n)
        if n < 3:
            yield f"group n={n} verbose", lambda n=n: grp(n, True)
    for bad, exc in ((0, ValueError), (-1, ValueError), (-7, ValueError), (1.0, TypeError), (2.5, TypeError), ("2", TypeError),
                     (None, TypeError), ([1], TypeError), (np.float64(2), TypeError)):
        yield f"group bad {bad!r}", lambda bad=bad, exc=exc: raises(exc, lambda: L.generate_pauli_group(bad),
                                                                    f"generate_pauli_group({bad!r})")
    H = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
    T = np.diag([1, np.exp(0.25j * np.pi)])
    for n in ctx.large(5, 6):
        yield f"group n={n}", lambda n=n: grp(n)
    for n in ctx.large(4, 5):
        rng = ctx.rng("C15l", n)
        v = O.ket(rng, 2 ** n)
        r = O.density(rng, 2 ** n)
        yield f"stab n={n} ket large", lambda b=(np.outer(v, np.conj(v)), v, "large"): st(*b)
        yield f"stab n={n} rho large", lambda b=(r, r, "large"): st(*b)
    for n in (1, 2, 3) + (() if ctx.quick else (4,)):
        for rep in range(3 if ctx.quick else 12):
            rng = ctx.rng("C15", n, rep)
            d = 2 ** n
            v = O.ket(rng, d)
            tk = np.array([1.0 + 0j])
            for _ in range(n):
                tk = np.kron(tk, T @ H @ np.array([1, 0]))
            ghz = np.zeros(d, complex)
            ghz[0] = ghz[-1] = 1 / np.sqrt(2)
            e = np.zeros(d)
            e[int(rng.integers(d))] = 1
            W = np.zeros(d)
            for k in range(n):
                W[1 << k] = 1 / np.sqrt(n)
            ks = {"ket": v, "T": tk, "ghz": ghz, "basis": e, "W": W, "plus": np.ones(d) / np.sqrt(d),
                  "iphase": 1j ** np.arange(d) / np.sqrt(d)}
            for k, x in ks.items():
                yield f"stab {k} n={n} #{rep}", lambda b=(np.outer(x, np.conj(x)), x, k): st(*b)
            ms = {"rho": O.density(rng, d), "rank2": O.density(rng, d, 2), "mixed": np.eye(d) / d, "real": np.diag(rng.dirichlet(np.ones(d))),
                  "noisy": 0.7 * np.outer(v, v.conj()) + 0.3 * np.eye(d) / d}
            for e in [0.3, 0.1, 0.03] + [x for x in epsilons() if x > 5e-9]:
                if n == 3 and e < 1e-4 and rep:
                    continue
                ms[f"near mixed {e:g}"] = (1 - e) * np.eye(d) / d + e * O.density(rng, d)
                ms[f"near basis {e:g}"] = (1 - e) * np.diag(e0(d, int(rng.integers(d)))) + e * O.density(rng, d)
                ms[f"near mixed diag {e:g}"] = np.diag((1 - e) / d + e * rng.dirichlet(np.ones(d)))
            for k, x in ms.items():
                yield f"stab {k} n={n} #{rep}", lambda b=(x, x, k): st(*b)


# ---------------------------------------------------------------- C16
def gauss_state(rng, n, T=1.0):
    H = O.bdg(O.herm(rng, n), O.asym(rng, n))
    al = O.alphas(n)
    X = sum(H[i, j] * (al[i].conj().T @ al[j]) for i in range(2 * n) for j in range(2 * n))
    X = (X + X.conj().T) / 2
    w, v = np.linalg.eigh(X)
    p = np.exp(-T * (w - w.min()))
    return (v * (p / p.sum())) @ v.conj().T, v[:, 0]


def C16(ctx):
    def td(A, B, x, y, label):
        D = A - B
        want = np.abs(np.linalg.eigvalsh((D + D.conj().T) / 2)).sum() / 2
        slack = 1e-11 * np.linalg.norm(D) + 1e-13 * len(D)
        got = DM.trace_distance(x, y)
        require(np.ndim(got) == 0 and abs(got - want) < slack, f"trace_distance({label})", got=got, want=want, A=x, B=y)

    def cov(rho):
        n = int(round(math.log2(rho.shape[0])))
        g = O.majoranas(n)
        M = np.array([[-1j * np.trace(rho @ (a @ b - b @ a)) for b in g] for a in g])
        return M.real, n

    def cd(rho, x, label):
        M, n = cov(rho)
        sv = np.sort(np.linalg.svd(M, compute_uv=False))[::-1][::2]      # one per pair
        if np.any((sv > 1e-12) & (sv < 1e-8)):
            return
        want = np.sort(sv[sv > 1e-10] ** 2)
        got = DM.cov_distribution(x)
        require(np.ndim(got) == 1 and len(got) == len(want) and np.all(np.abs(np.sort(got) - want) <= 1e-10 * np.sqrt(want) + 1e-9 * want + 1e-12),
                f"cov_distribution({label})", got=got, want=want, x=x)

    def faf(rho, x, label):
        M, n = cov(rho)
        Q = M.T @ M
        for k in [2, 1, 3, 4, 1.5, 7, "default"] + ctx.mags(0.5, 40, False):
            kk = 2 if k == "default" else k
            w = np.clip(np.linalg.eigvalsh(Q), 0, None)
            want = n - 0.5 * np.sum(w ** kk)
            got = DM.FAF(x) if k == "default" else DM.FAF(x, k)
            require(np.ndim(got) == 0 and abs(got - want) < 1e-6, f"FAF({label}, k={k!r})", got=got, want=want, x=x)

    for d in ctx.large(7, 100):
        rng = ctx.rng("C16t", d)
        A, B = O.density(rng, d), O.density(rng, d, 2)
        yield f"td d={d}", lambda z=(A, B, A, B, "large"): td(*z)
        yield f"td d={d} near", lambda z=(A, (A + 1e-3 * B) / 1.001, A, (A + 1e-3 * B) / 1.001, "large near"): td(*z)
    for n in ctx.large(4, 6) + [1, 2, 3] + ([] if ctx.quick else [4]):
        d = 2 ** n
        for rep in range(1 if n > 3 else 5 if ctx.quick else 30):
            rng = ctx.rng("C16", n, rep)
            g, gs = gauss_state(rng, n, rng.choice([0.1, 1.0, 5.0]))
            v = O.ket(rng, d)
            e = np.zeros(d)
            e[int(rng.integers(d))] = 1
            ghz = np.zeros(d)
            ghz[0] = ghz[-1] = 1 / np.sqrt(2)
            half = np.diag(np.r_[np.ones(d // 2), np.zeros(d // 2)]) * 2 / d
            S = {"rho": O.density(rng, d), "rank2": O.density(rng, d, 2), "mixed": np.eye(d) / d, "gaussian": g,
                 "gpure": np.outer(gs, gs.conj()), "pure": np.outer(v, v.conj()), "basis": np.outer(e, e), "ghz": np.outer(ghz, ghz),
                 "half": half, "diag": np.diag(rng.dirichlet(np.ones(d))), "werner": 0.4 * np.outer(v, v.conj()) + 0.6 * np.eye(d) / d}
            ket = {"gpure": gs, "pure": v, "basis": e, "ghz": ghz}
            for k, x in S.items():
                yield f"cov {k} n={n} #{rep}", lambda b=(x, x, k): cd(*b)
                yield f"faf {k} n={n} #{rep}", lambda b=(x, x, k): faf(*b)
                if k in ket:
                    yield f"cov ket {k} n={n} #{rep}", lambda b=(x, ket[k], k): cd(*b)
                    yield f"faf ket {k} n={n} #{rep}", lambda b=(x, ket[k], k): faf(*b)
            for e in epsilons():        # nearly equal states; small real, imaginary and diagonal parts of the difference
                X = O.herm(rng, d)
                X -= np.trace(X) * np.eye(d) / d
                base = 0.5 * S["rho"] + 0.5 * np.eye(d) / d
                for nm, Y in (("full", e * X), ("imag", 0.05 / d * (X.real - np.diag(np.diag(X.real))) + 1j * e * X.imag / d),
                              ("off", 0.05 / d * np.diag(np.diag(X)).real + e / d * (X - np.diag(np.diag(X))))):
                    Y = Y / max(1.0, 8 * d * np.abs(Y).max())
                    yield f"td {nm} {e:g} n={n} #{rep}", lambda z=(base + Y, base, base + Y, base, f"{nm} {e:g}"): td(*z)
            for (ka, a), (kb, b) in itertools.product(S.items(), S.items()):
                if rep and rng.random() < 0.6:
                    continue
                yield f"td {ka} {kb} n={n} #{rep}", lambda z=(a, b, a, b, f"{ka},{kb}"): td(*z)
                if ka in ket and kb in ket:
                    yield f"td kets {ka} {kb} n={n} #{rep}", lambda z=(a, b, ket[ka], ket[kb], f"{ka},{kb} kets"): td(*z)
                if ka in ket and kb not in ket:
                    yield f"td ket/rho {ka} {kb} n={n} #{rep}", lambda z=(a, b, ket[ka], b, f"{ka},{kb}"): td(*z)
    for d in (3, 5, 6):
        rng = ctx.rng("C16d", d)
        A, B = O.density(rng, d), O.density(rng, d, 2)
        yield f"td d={d}", lambda z=(A, B, A, B, "qudit"): td(*z)


# ---------------------------------------------------------------- C17
def density_ok(r, d):
    r = np.asarray(r)
    return (r.shape == (d, d) and np.all(np.isfinite(r)) and abs(np.trace(r) - 1) < 1e-8 and np.allclose(r, r.conj().T, atol=1e-8)
            and np.linalg.eigvalsh((r + r.conj().T) / 2).min() > -1e-8)


def C17(ctx):
    sized = {"random_qubit_state": RS.random_qubit_state, "random_qubit_pure_state": RS.random_qubit_pure_state,
             "random_FF_state_randH": RS.random_FF_state_randH, "random_FF_state_rotPDF": RS.random_FF_state_rotPDF,
             "random_FF_pure_state_W0": RS.random_FF_pure_state_W0, "random_FF_pure_state_WN": RS.random_FF_pure_state_WN,
             "random_FF_pure_state_CN": RS.random_FF_pure_state_CN, "random_CHP_state": RS.random_CHP_state}
    noseed = {"random_CHP_state"}

    def state(name, n, seed, kw):
        f = sized[name]
        r = f(n, **kw) if seed is None else f(n, seed=seed, **kw)
        w = dict(function=name, n=n, seed=seed, **kw)
        d = 2 ** n
        if "pure" in name or name == "random_CHP_state":
            require(np.shape(r) == (d, 1), f"{name}: not a column vector of dimension 2^n", got=np.shape(r), **w)
            require(abs(np.linalg.norm(r) - 1) < (1e-5 if name == "random_CHP_state" else 1e-8), f"{name}: not a unit vector", **w)
        else:
            require(density_ok(r, d), f"{name}: not a density matrix", **w)
        if name in ("random_FF_pure_state_W0", "random_FF_pure_state_WN", "random_FF_pure_state_CN"):
            par = np.array([(-1.0) ** bin(k).count("1") for k in range(d)])
            x = np.ravel(r)
            require(min(np.linalg.norm(x[par > 0]), np.linalg.norm(x[par < 0])) < 1e-7 or name.endswith("CN"),
                    f"{name}: no definite parity", **w)
            G = np.array([[np.vdot(x, a @ b @ x) for b in O.majoranas(n)] for a in O.majoranas(n)])
            M = -1j * (G - G.T)
            require(np.allclose(M @ M.conj().T, np.eye(2 * n), atol=1e-6), f"{name}: not a free-fermion state", **w)

    def rot(n, seed, orb, H):
        kw = {}
        if seed is not None:
            kw["seed"] = seed
        if orb:
            kw["returnOrb"] = True
        if H:
            kw["returnH"] = True
        r = np.asarray(L.random_FF_rotation(n, **kw))
        w = dict(n=n, **kw)
        if orb:
            S = np.block([[np.zeros((n, n)), np.eye(n)], [np.eye(n), np.zeros((n, n))]])
            require(r.shape == (2 * n, 2 * n) and O.is_unitary(r, 1e-8), "random_FF_rotation returnOrb: not unitary", **w)
            require(np.allclose(r @ S @ r.T, S, atol=1e-8), "random_FF_rotation returnOrb: not symplectic", **w)
            require(np.allclose(r[:n, :n], r[n:, n:].conj(), atol=1e-8) and np.allclose(r[:n, n:], r[n:, :n].conj(), atol=1e-8),
                    "random_FF_rotation returnOrb: not canonical", **w)
        elif H:
            require(r.shape == (2 ** n, 2 ** n) and np.allclose(r, r.conj().T, atol=1e-8), "random_FF_rotation returnH", **w)
        else:
            require(r.shape == (2 ** n, 2 ** n) and O.is_unitary(r, 1e-7), "random_FF_rotation: not unitary", **w)
            if n <= 3:      # conjugation maps Majoranas to real combinations of Majoranas
                g = O.majoranas(n)
                Q = np.array([[2 * np.trace(r @ a @ r.conj().T @ b) / 2 ** n for b in g] for a in g])
                require(np.allclose(Q @ Q.conj().T, np.eye(2 * n), atol=1e-6) and np.allclose(Q.imag, 0, atol=1e-6),
                        "random_FF_rotation: not a free-fermion rotation", **w)

    def bits(n, k, seed):
        np.random.seed(seed)
        b = UT.generate_random_bitstring(n, k)
        w = dict(n=n, k=k, seed=seed, got=b)
        if k < 0 or k > n:
            require(b is None, "generate_random_bitstring: k outside 0..n accepted", **w)
        else:
            b = np.asarray(b)
            require(b.shape == (n,) and np.all((b == 0) | (b == 1)) and b.sum() == k, "generate_random_bitstring", **w)

    def graph(n, seed):
        G = GT.generate_random_planar_graph(n, seed=seed) if seed is not None else GT.generate_random_planar_graph(n)
        if G is None:
            require(n > 12, "generate_random_planar_graph: gives up on a small size", n=n, seed=seed)
            return
        require(set(G.nodes()) == set(range(n)) and nx.check_planarity(G)[0] and nx.is_connected(G)
                and not G.is_directed() and not G.is_multigraph() and nx.number_of_selfloops(G) == 0,
                "generate_random_planar_graph", n=n, seed=seed, edges=list(G.edges()))

    for name in sized:
        for bad, exc in ((0, ValueError), (-1, ValueError), (-3, ValueError), (-10 ** 6, ValueError), (2.0, TypeError), ("2", TypeError),
                         (None, TypeError), (1.5, TypeError), ([2], TypeError), (np.float64(1), TypeError), (2 + 0j, TypeError),
                         (0.0, TypeError), (-1.5, TypeError), ((1,), TypeError)):
            yield f"{name} bad {bad!r}", lambda name=name, bad=bad, exc=exc: raises(exc, lambda: sized[name](bad), f"{name}({bad!r})")
            if name not in noseed:
                yield f"{name} bad {bad!r} seeded", lambda name=name, bad=bad, exc=exc: raises(
                    exc, lambda: sized[name](bad, seed=0), f"{name}({bad!r}, seed=0)")
    for n in (1, 2, 3):
        for N in (-1, n + 1, 1.0, "1", 0.5, -5, 100, [1], n + 0.5, float(n), 0.0, np.float64(0)):
            for s in (None, 0, 3):
                yield f"WN bad n={n} N={N!r} seed={s}", lambda n=n, N=N, s=s: raises(
                    ValueError, lambda: RS.random_FF_pure_state_WN(n, N=N, seed=s), f"random_FF_pure_state_WN({n}, N={N!r})")
    for n in ctx.large(5, 8):
        for s in (None, 0, 7):
            for name in sized:
                if name not in noseed and (s is None or n < 8):
                    yield f"{name} n={n} seed={s} large", lambda a=(name, n, s, {}): state(*a)
            for N in {0, 1, n // 2, n - 1, n} if n < 8 else ():
                yield f"WN n={n} N={N} seed={s} large", lambda a=("random_FF_pure_state_WN", n, s, dict(N=N)): state(*a)
            for orb in (False, True):
                for H in (False, True):
                    yield f"rotation n={n} seed={s} orb={orb} H={H} large", lambda a=(n, s, orb, H): rot(*a)
        for rep in range(4):
            yield f"CHP n={n} #{rep}", lambda a=(n, rep): state("random_CHP_state", n, None, {})
    for n in ctx.large(9, 200):
        for k in range(-1, n + 2):
            yield f"bits n={n} k={k} large", lambda a=(n, k, 1): bits(*a)
        if n <= 40:
            for s in (1, 2):
                yield f"graph n={n} seed={s} large", lambda a=(n, s): graph(*a)
    seeds = [None, 0, 1, 2, 3, 42, 12345, 2 ** 31 - 1, 2 ** 32 - 2] + list(range(100, 104 if ctx.quick else 160))
    for n in (1, 2, 3, 4) + (() if ctx.quick else (5,)):
        for s in seeds:
            np.random.seed((ctx.seed * 1000 + n) % 2 ** 32)
            for name in sized:
                if name in noseed and s is not None:
                    continue
                if n == 4 and s not in (None, 0, 1, 100):
                    continue
                yield f"{name} n={n} seed={s}", lambda a=(name, n, s, {}): state(*a)
            for N in range(n + 1):
                if n == 4 and s not in (None, 0, 1):
                    continue
                yield f"WN n={n} N={N} seed={s}", lambda a=("random_FF_pure_state_WN", n, s, dict(N=N)): state(*a)
            for orb in (False, True):
                for H in (False, True):
                    yield f"rotation n={n} seed={s} orb={orb} H={H}", lambda a=(n, s, orb, H): rot(*a)
    for rep in range(10 if ctx.quick else 100):
        yield f"CHP #{rep}", lambda rep=rep: state("random_CHP_state", 1 + rep % 5, None, {})
    for n in range(0, 9):
        for k in range(-2, n + 4):
            for s in range(3):
                if n == 0 and 0 <= k <= 0 and s:
                    continue
                if n == 0 and k == 0:
                    continue
                yield f"bits n={n} k={k} #{s}", lambda a=(n, k, s): bits(*a)
    for n in (1, 5, 12):
        for k in (-1, 0, 1, n // 2, n, n + 1):
            for t in (np.int64, np.int8, np.uint8):
                if k >= 0 or t is not np.uint8:
                    yield f"bits n={n} k={t.__name__}({k})", lambda a=(n, t(k), 7): bits(*a)
    for n, k in ((30, 15), (64, 64), (100, 1), (50, 0), (40, 41)):
        yield f"bits n={n} k={k}", lambda a=(n, k, 5): bits(*a)
    for n in (16, 33, 64, 65, 100, 128, 200, 257, 500, 1024):
        for k in sorted({2, 3, 4, 7, int(n ** 0.5), n // 10, n // 4, n // 2, n - 5, n - 1}):
            for s in range(3):
                yield f"bits n={n} k={k} #{s}", lambda a=(n, k, s): bits(*a)
    for n, s in ((20, 1), (24, 2), (30, 3), (40, 2), (60, 1)) + (() if ctx.quick else ((40, 1), (50, 1), (60, 2), (80, 3), (100, 4))):
        yield f"graph n={n} seed={s}", lambda a=(n, s): graph(*a)
    for n in range(2, 13):
        for s in (None, 0, 1, 2, 3, 4, 5, 42) + (() if ctx.quick else tuple(range(50, 80))):
            yield f"graph n={n} seed={s}", lambda a=(n, s): graph(*a)


# ---------------------------------------------------------------- C18
def seeded_functions(n):
    out = []
    for orb in (False, True):
        for H in (False, True):
            out.append((f"random_FF_rotation(returnH={H},returnOrb={orb})",
                        lambda s, H=H, orb=orb: L.random_FF_rotation(n, seed=s, returnH=H, returnOrb=orb)))
    for fx in (False, True):
        out.append((f"random_H_generator(fixedN={fx})", lambda s, fx=fx: L.random_H_generator(n, fixedN=fx, seed=s)))
        for H in (False, True):
            for pure in (False, True):
                out.append((f"random_FF_state(fixedN={fx},returnH={H},pure={pure})",
                            lambda s, fx=fx, H=H, pure=pure: L.random_FF_state(n, fixedN=fx, seed=s, returnH=H, pure=pure)))
    for f in ("random_qubit_state", "random_qubit_pure_state", "random_FF_state_randH", "random_FF_pure_state_W0",
              "random_FF_pure_state_CN", "random_FF_pure_state_WN"):
        out.append((f, lambda s, f=f: getattr(RS, f)(n, seed=s)))
    for N in range(n + 1):
        out.append((f"random_FF_pure_state_WN(N={N})", lambda s, N=N: RS.random_FF_pure_state_WN(n, N=N, seed=s)))
    for rs in (False, True):
        out.append((f"random_FF_state_rotPDF(returnS={rs})", lambda s, rs=rs: RS.random_FF_state_rotPDF(n, returnS=rs, seed=s)))
    if n >= 2:
        out.append(("generate_random_planar_graph", lambda s: GT.generate_random_planar_graph(n + 2, seed=s)))
    return out


def freeze(r):
    if isinstance(r, nx.Graph):
        return ("graph", sorted(r.nodes()), sorted(tuple(sorted(e)) for e in r.edges()))
    if isinstance(r, (tuple, list)):
        return tuple(freeze(x) for x in r)
    if r is None:
        return None
    return np.array(r)


def same(a, b, tol=1e-9):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and close(a, b, tol)
    return a == b


def C18(ctx):
    def disturb(k):
        """an arbitrary history of the global generators"""
        if k == 0:
            np.random.seed(987)
            random.seed(987)
        elif k == 1:
            np.random.seed(5)
            random.seed(5)
            np.random.normal(size=3)          # leaves a cached Gaussian behind
            random.gauss(0, 1)
        elif k == 2:
            np.random.randn(7)
            random.random()
        elif k == 3:
            L.random_FF_rotation(2)
            GT.generate_random_planar_graph(4)
            np.random.exponential()
        elif k == 4:
            np.random.seed(0)
            random.seed(0)
            np.random.permutation(5)
            random.sample(range(9), 4)

    def det(name, f, s, hist=(1, 2, 3, 4)):
        disturb(0)
        a = freeze(f(s))
        for k in hist:
            disturb(k)
            b = freeze(f(s))
            require(same(a, b), f"{name}: result with seed {s} depends on the history", history=k, first=a, second=b)
        c = freeze(f(s))
        require(same(a, c), f"{name}: immediate repetition with seed {s} differs", first=a, second=c)

    def differ(name, f, n):
        """different seeds give different results; unseeded calls continue the stream"""
        rs = [freeze(f(s)) for s in (0, 1, 2, 3, 4, 5)]
        require(not all(same(rs[0], r) for r in rs[1:]), f"{name}: the seed has no effect")

    def unseeded(name, f):
        np.random.seed(3)
        random.seed(3)
        s0 = (np.random.get_state()[1].tolist(), np.random.get_state()[2], random.getstate())
        a = [freeze(f(None)) for _ in range(4)]
        s1 = (np.random.get_state()[1].tolist(), np.random.get_state()[2], random.getstate())
        require(s0 != s1, f"{name}: an unseeded call does not draw from the global stream")
        require(not all(same(a[0], x) for x in a[1:]), f"{name}: consecutive unseeded calls repeat")
        np.random.seed(3)
        random.seed(3)
        b = [freeze(f(None)) for _ in range(4)]
        require(all(same(x, y) for x, y in zip(a, b)), f"{name}: unseeded calls do not follow the global stream")
        np.random.seed(4)
        random.seed(4)
        c = [freeze(f(None)) for _ in range(4)]
        require(not all(same(x, y) for x, y in zip(a, c)), f"{name}: unseeded calls ignore the global stream")

    trivial = {("random_FF_pure_state_WN(N=0)", 0)}
    for n in (1, 2, 3):
        for name, f in seeded_functions(n):
            for s in (0, 1, 2, 7, 42, 2023, 2 ** 31, 2 ** 32 - 2) + (() if ctx.quick else tuple(range(200, 230))):
                if n == 3 and s not in (0, 1, 42):
                    continue
                yield f"{name} n={n} seed={s}", lambda a=(f"{name} n={n}", f, s): det(*a)
            yield f"{name} n={n} seeds differ", lambda a=(f"{name} n={n}", f, n): differ(*a)
            yield f"{name} n={n} unseeded", lambda a=(f"{name} n={n}", f): unseeded(*a)
    for n in ctx.sizes([4], 5 if ctx.quick else 6, lo=4) + ctx.large(7, 7):
        for name, f in seeded_functions(n):
            for s in (0, 42):
                yield f"{name} n={n} seed={s}", lambda a=(f"{name} n={n}", f, s, (1, 2)): det(*a)
    for n in ctx.sizes([7, 12], 40, lo=6):
        for s in (0, 42):
            yield (f"generate_random_planar_graph n={n} seed={s}",
                   lambda a=(f"planar n={n}", lambda s, n=n: GT.generate_random_planar_graph(n, seed=s) if n < 14 else None, s, (1, 2)): det(*a))


# ---------------------------------------------------------------- C21
def snapshot(x):
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, str(x.dtype), x.copy(), x.flags.writeable)
    if isinstance(x, list):
        return ("list", [snapshot(y) for y in x])
    if isinstance(x, tuple):
        return ("tuple", [snapshot(y) for y in x])
    if isinstance(x, nx.Graph):
        return ("graph", list(x.nodes(data=True)), [(u, v, dict(d)) for u, v, d in x.edges(data=True)])
    return ("val", repr(x))


def snap_eq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "nd":
        return a[1] == b[1] and a[2] == b[2] and np.array_equal(a[3], b[3]) and a[4] == b[4]
    if a[0] in ("list", "tuple"):
        return len(a[1]) == len(b[1]) and all(snap_eq(x, y) for x, y in zip(a[1], b[1]))
    return a == b


def C21(ctx):
    def frame(name, f, args, kw, repeat=True, rnd=False):
        before = snapshot([args, kw and list(kw.values())])
        r1 = e1 = None
        np.random.seed(11)
        random.seed(11)
        try:
            r1 = f(*args, **kw)
        except Exception as e:  # noqa: BLE001
            e1 = type(e)
        require(snap_eq(before, snapshot([args, kw and list(kw.values())])), f"{name}: changed an argument",
                args=before, after=args)
        keep = copy.deepcopy(freeze_any(r1))
        np.random.seed(11)
        random.seed(11)
        try:
            r2 = f(*args, **kw)
            e2 = None
        except Exception as e:  # noqa: BLE001
            r2, e2 = None, type(e)
        require(snap_eq(before, snapshot([args, kw and list(kw.values())])), f"{name}: second call changed an argument")
        require(e1 == e2 and same_any(keep, freeze_any(r2)), f"{name}: repeated call gives another result", first=keep, second=r2,
                args=args)
        require(same_any(keep, freeze_any(r1)), f"{name}: a later call overwrote an earlier result", first=keep, now=r1)
        # scribbling over a result must not influence later calls
        scribble(r2, args)
        mine = copy.deepcopy(freeze_any(r2))
        if snap_eq(before, snapshot([args, kw and list(kw.values())])):
            np.random.seed(11)
            random.seed(11)
            try:
                r3 = f(*args, **kw)
                e3 = None
            except Exception as e:  # noqa: BLE001
                r3, e3 = None, type(e)
            require(e1 == e3 and same_any(keep, freeze_any(r3)), f"{name}: results share memory with later calls", first=keep,
                    third=r3)
            require(same_any(mine, freeze_any(r2)), f"{name}: a later call overwrote an earlier result", first=mine, now=r2)

    def freeze_any(r):
        if isinstance(r, (list, tuple)):
            return tuple(freeze_any(x) for x in r)
        if isinstance(r, nx.Graph):
            return ("graph", sorted(map(repr, r.nodes())), sorted(repr(sorted(map(repr, e))) for e in r.edges()))
        if callable(r):
            return tuple(np.array(r(t)) for t in (0, 0.3, 1))
        if isinstance(r, (set, frozenset)):
            return ("set", sorted(map(repr, r)))
        return np.array(r) if isinstance(r, np.ndarray) else r

    def same_any(a, b):
        if isinstance(a, tuple):
            return isinstance(b, tuple) and len(a) == len(b) and all(same_any(x, y) for x, y in zip(a, b))
        if isinstance(a, np.ndarray):
            return isinstance(b, np.ndarray) and a.shape == b.shape and (a.dtype.kind not in "fc" and np.array_equal(a, b)
                                                                        or a.dtype.kind in "fc" and close(a, b, 1e-9))
        if isinstance(a, float) or isinstance(a, complex) or isinstance(a, np.generic):
            return close(a, b, 1e-9)
        return a == b

    def scribble(r, args):
        if isinstance(r, np.ndarray):
            if r.flags.writeable and not any(isinstance(a, np.ndarray) and np.shares_memory(a, r) for a in flat(args)):
                try:
                    r += 1
                except Exception:  # noqa: BLE001
                    pass
        elif isinstance(r, (list, tuple)):
            for x in r:
                scribble(x, args)

    def flat(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                yield from flat(y)
        else:
            yield x

    rng = ctx.rng("C21")

    def M(r, c=None):
        c = r if c is None else c
        return rng.normal(size=(r, c)) + 1j * rng.normal(size=(r, c))
    R = lambda *s: rng.normal(size=s)  # noqa: E731
    cases = []

    def add(f, *args, **kw):
        cases.append((f, args, kw))
    for n in [1, 2, 3] + ctx.large(4, 5):
        d = 2 ** n
        jw = O.alphas(n)
        rho = O.density(rng, d)
        H = O.bdg(O.herm(rng, n), O.asym(rng, n))
        for f in (L.jordan_wigner_lowering, L.jordan_wigner_alphas, L.jordan_wigner_majoranas, L.build_Omega,
                  L.build_reordering_xx_to_xp, L.build_K, L.generate_pauli_group):
            add(f, n)
        add(L.pauli_matrices)
        tiny = np.full((n, n), 1e-15) + 1e-17j
        for A in (M(n), R(n, n), rng.integers(-3, 3, size=(n, n)), np.zeros((n, n)), tiny, tiny.real, np.diag(np.arange(n) + 1.0) + tiny):
            add(L.build_H, n, A)
            add(L.build_V, n, A)
            add(L.build_H, n, A, M(n))
            add(L.build_V, n, A, R(n, n))
        add(L.build_H, n, M(n), np.zeros((n, n)))
        for direct in (False, True):
            for vb in (None, True):
                for mat in (H, H.real + 0j, 1e-11 * H, R(2 * n, 2 * n), np.kron(np.eye(2), tiny) + np.eye(2 * n)):
                    add(L.build_op, n, mat, jw, verbose=vb, direct=direct)
        add(L.build_op, n, M(2 * n + 2), [M(2) for _ in range(2 * n + 2)])
        for left in (False, True):
            for vb in (False, True):
                for C in (H, R(2 * n, 2 * n), np.eye(2 * n), O.unitary(rng, 2 * n), np.diag([1e-11] * 2 * n), np.kron(np.eye(2), tiny) + np.eye(2 * n)):
                    add(L.rotate_operators, C, jw, Left=left, verbose=vb)
                    add(L.rotate_operators, jw, C, Left=left, verbose=vb)
        add(L.rotate_operators, R(2 * n + 1, 2 * n + 1), jw)
        add(L.rotate_operators, R(2 * n + 1, 2 * n + 2), jw)
        for p in (list(range(n)), list(range(n))[::-1], [0] * n, [n] * n, np.arange(n)):
            add(L.permutation_to_matrix, p)
        add(L.kitaev_chain, n, 0.3, 1.0, -0.5)
        for x in valid_H_(rng, n):
            S = np.block([[np.zeros((n, n)), np.eye(n)], [np.eye(n), np.zeros((n, n))]])
            Om = np.block([[np.eye(n), np.eye(n)], [1j * np.eye(n), -1j * np.eye(n)]]) / np.sqrt(2)
            G = Om @ x @ Om.conj().T
            G = 1j * G.imag
            add(L.eigh_sp, x)
            add(L.eigv_sp, S @ x)
            add(L.eigm_sp, G)
            add(L.eigm_sp_can, G)
            add(L.generate_gaussian_state, n, x)
            add(L.generate_gaussian_state, n, x, jw)
            add(L.is_symp, x)
            add(L.check_canonical_form, x)
            add(L.check_canonical_form, G.imag)
        add(L.eigh_sp, M(2 * n))
        add(L.eigm_sp, M(2 * n))
        add(L.eigm_sp_can, M(2 * n))
        add(L.generate_gaussian_state, n, O.herm(rng, d))
        add(L.generate_gaussian_state, n, R(2 * n + 3, 2 * n + 3))
        add(L.is_symp, np.eye(2 * n))
        add(L.check_canonical_form, R(2 * n + 1, 2 * n + 1))
        add(L.check_canonical_form, np.kron(np.eye(n), np.array([[0, 1.0], [-1, 0]])))
        for op in (rho, M(d), R(d, d)):
            add(L.correlation_matrix, op)
            add(L.compute_cov_matrix, op)
            add(L.compute_cov_matrix, op, n, jw)
            for c in (None, True, 1, -1):
                add(L.compute_2corr_matrix, op, n, jw, c)
                add(L.compute_2corr_matrix, op, n, None, c)
        for vb in (False, True):
            add(L.compute_algebra_S, jw, verbose=vb)
            add(L.compute_algebra_S, O.majoranas(n), verbose=vb)
            add(L.compute_algebra_S, [M(d) for _ in range(2 * n)], verbose=vb)
        for s in (None, 0, 3):
            for name, f in seeded_functions(n):
                cases.append((f, (s,), {}, name))
        w, v = O.ket(rng, d), O.ket(rng, d)
        p, q = rng.dirichlet(np.ones(d)), rng.dirichlet(np.ones(d))
        sp = np.r_[np.ones(d // 2) / (d // 2), np.zeros(d // 2)]
        for x in (w, v.reshape(-1, 1), v.reshape(1, -1), p, sp, rho, np.diag(p), 2 * p, 2 * rho, M(d), list(p), M(2, 3), p.astype(complex)):
            add(UT.cast_to_density_matrix, x)
            add(UT.cast_to_pdf, x)
            for a in (0, 1, 2, np.inf, 0.5):
                add(DM.renyi_entropy, x, a)
            add(DM.linear_entropy, x)
            add(DM.stabilizer_distribution, x)
            add(DM.SRE, x)
            add(DM.cov_distribution, x)
            add(DM.FAF, x)
            add(DM.FAF, x, 3)
        for f in (DM.total_variation_distance, DM.trace_distance, DM.relative_entropy, DM.bhattacharyya_coeff,
                  DM.jensen_shannon_divergence):
            for x, y in ((p, q), (w, v), (rho, np.diag(p)), (p, sp), (sp, p), (rho, 2 * rho), (w, rho)):
                add(f, x, y)
        for k in (0, 1, d - 1, d, d + 1, -1):
            add(UT.generate_random_bitstring, d, k)
        if n >= 2:
            for x, y in ((w, v), (w.reshape(-1, 1), v.reshape(-1, 1)), (w.real, v.real), (w, -w), (w, w), (R(d), M(d).ravel()[:d]),
                         (list(w), list(v)), (3 * w, 5j * v)):
                add(RS.build_unitary_path, x, y)
                add(RS.build_linear_path, x, y)
                add(RS.get_orthogonal_vectors, x)
        add(RS.get_orthogonal_vectors, np.zeros(d))
    for m in (M(4), R(4, 4), np.eye(4), M(3)):
        for vb in (False, True):
            add(L.is_matchgate, m, verbose=vb)
    for t in [1e-6, 3, 1e-2] + ctx.sizes([12], 20, lo=4):
        for x in (1e-20 * M(2), np.array([1 + 1j, 1e-18]), 1e-20 * R(2), R(3, 3), M(3), M(3) * 1e-8, R(4) + 0j, [1.0, 1e-9, 2.5], [1 + 1e-9j, 1e-12], 1.5, 1 + 1e-9j, np.arange(5), "1.25", "x",
                  np.array([1e-9, 0.5 + 0.4e-6, 1.0]), np.array([1e-9 + 1j, 2.0]), [[1.0, 2e-9], [3.0, 4.0]], None, (1, 2),
                  np.asfortranarray(M(3))):
            add(UT.clean, x, t)
            add(UT.print_custom, x)
            add(UT.formatted_output, x)
            add(UT._print, x, 4)
    add(UT.kron_plus, M(2), R(3, 2))
    add(UT.kron_plus, np.eye(2), np.eye(2))
    for D, dd in ((4, 2), (6, 3), (6, 2), (5, 2), (4, 1), (4, 4)):
        for x in (M(D), R(D, D), rng.integers(0, 3, size=(D, D))):
            add(ff.partial_trace_over_1, x, dd)
            add(ff.partial_trace_over_2, x, dd)
    for n in (0, 1, 2, 3, 4):
        for x in (R(n, n), M(n), R(n, n).tolist(), rng.integers(0, 4, size=(n, n))):
            for f in (CB.pf, CB.hf, CB.pt, CB.dt):
                if n or f in (CB.pt, CB.dt):
                    add(f, x)
            if not isinstance(x, list):
                add(CB.dt_eigen, x)
        add(CB.sgn, list(rng.permutation(n)))
        add(CB.sgn, rng.permutation(n))
    add(CB.dt_eigen, R(2, 3))
    gs = [nx.cycle_graph(4), nx.grid_2d_graph(2, 3), nx.complete_graph(4), nx.path_graph(5), nx.star_graph(3), nx.complete_graph(5),
          nx.disjoint_union(nx.cycle_graph(4), nx.path_graph(2)), nx.wheel_graph(6), nx.petersen_graph(), nx.empty_graph(2),
          nx.relabel_nodes(nx.cycle_graph(6), dict(enumerate("abcdef")))]
    wg = nx.Graph()
    wg.add_weighted_edges_from([(3, 0, 2.0), (0, 1, 0.5), (1, 2, 3.0), (2, 3, 1.0), (0, 2, 4.0)])
    gs.append(wg)
    for G in gs:
        add(GT.count_perfect_matchings, G)
        add(GT.count_perfect_matchings_planar, G)
        if len(G) <= 10:
            add(GT.find_perfect_matchings_brute, G)
        add(GT.faces, G)
        if nx.check_planarity(G)[0] and nx.is_connected(G):
            emb = nx.check_planarity(G)[1]
            add(GT.faces, G, emb)
            if set(G.nodes()) == set(range(len(G))):
                add(GT.pfo_algorithm, G)
                T = nx.minimum_spanning_tree(G)
                add(GT.dual_graph_H, G, GT.faces(G, emb), T)
        add(GT.compute_tree_depth, G)
    for i, c in enumerate(cases):
        f, args, kw = c[:3]
        name = c[3] if len(c) > 3 else f.__name__
        yield f"{name} #{i}", lambda a=(name, f, args, kw): frame(*a)


def valid_H_(rng, n):
    Z = np.zeros((n, n), dtype=complex)
    yield O.bdg(O.herm(rng, n), O.asym(rng, n))
    yield O.bdg(O.herm(rng, n), Z)
    yield O.bdg(Z, O.asym(rng, n))
    yield O.bdg(np.eye(n).astype(complex), Z)
