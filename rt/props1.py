"""Run-time contracts, part 1: ff_lib (C01-C08)."""
import itertools
import numpy as np
from core import require, eq, eqw, close, raises, ContractBroken, mine_floats  # noqa: F401
import oracle as O
import ff
from ff import ff_lib as L


# ---------------------------------------------------------------- C01
def C01(ctx):
    top = 7 if ctx.quick else 9

    def lower(n):
        got = L.jordan_wigner_lowering(n)
        require(len(got) == n, "jordan_wigner_lowering: length", n=n, length=len(got))
        for i in range(n):
            a = np.asarray(got[i])
            require(a.shape == (2 ** n, 2 ** n), "jordan_wigner_lowering: shape", n=n, i=i, shape=a.shape)
            ref = O.lowering(n, i)
            if not np.allclose(a, ref, atol=1e-12):
                raise ContractBroken(f"jordan_wigner_lowering({n})[{i}] is not Z^i (x) S- (x) 1, first differing entry "
                                     f"{tuple(int(x) for x in np.argwhere(~np.isclose(a, ref))[0])}")

    def car(n):
        a = [np.asarray(x) for x in L.jordan_wigner_lowering(n)]
        Id = np.eye(2 ** n)
        for i in range(n):
            require(not np.any(np.abs(a[i][:, 0]) > 1e-12), "a_i does not annihilate the vacuum", n=n, i=i)
            for j in range(i, n):
                ad = a[j].conj().T
                require(np.allclose(a[i] @ a[j] + a[j] @ a[i], 0, atol=1e-10), "{a_i,a_j} != 0", n=n, i=i, j=j)
                require(np.allclose(a[i] @ ad + ad @ a[i], Id * (i == j), atol=1e-10), "{a_i,a_j^+} != delta",
                        n=n, i=i, j=j)

    def alph(n):
        got = L.jordan_wigner_alphas(n)
        require(isinstance(got, list) and len(got) == 2 * n, "jordan_wigner_alphas: list of 2n", n=n)
        for k, (g, w) in enumerate(zip(got, O.alphas(n))):
            require(np.shape(g) == w.shape and np.allclose(g, w, atol=1e-12), "jordan_wigner_alphas entry", n=n, k=k)

    def maj(n):
        got = [np.asarray(x) for x in L.jordan_wigner_majoranas(n)]
        require(len(got) == 2 * n, "jordan_wigner_majoranas: length", n=n)
        Id = np.eye(2 ** n)
        for k, (g, w) in enumerate(zip(got, O.majoranas(n))):
            require(np.shape(g) == w.shape and np.allclose(g, w, atol=1e-10), "jordan_wigner_majoranas entry", n=n, k=k)
            require(np.allclose(g, g.conj().T), "majorana not Hermitian", n=n, k=k)
        if n <= 6:
            for i in range(2 * n):
                for j in range(i, 2 * n):
                    require(np.allclose(got[i] @ got[j] + got[j] @ got[i], Id * (i == j), atol=1e-10),
                            "{gamma_i,gamma_j} != delta_ij", n=n, i=i, j=j)

    for n in ctx.large(top + 1, 10):
        yield f"lowering n={n}", lambda n=n: lower(n)
        yield f"alphas n={n}", lambda n=n: alph(n)
        yield f"majoranas n={n}", lambda n=n: maj(n)
    for n in range(1, top + 1):
        yield f"lowering n={n}", lambda n=n: lower(n)
        yield f"alphas n={n}", lambda n=n: alph(n)
        yield f"majoranas n={n}", lambda n=n: maj(n)
        if n <= 7:
            yield f"car n={n}", lambda n=n: car(n)
    for n in ctx.sizes([8, 9], 10 if ctx.quick else 11, lo=top + 1):
        yield f"lowering n={n}", lambda n=n: lower(n)
    # repeated and interleaved calls: no state may leak from one call to another

    def again():
        x = L.jordan_wigner_lowering(3)
        for m in x:
            m *= 0
        for m in L.jordan_wigner_alphas(3):
            m += 5
        for m in L.jordan_wigner_majoranas(2):
            m -= 1
        lower(3), alph(3), maj(2), lower(2), maj(3)
    yield "repeat", again

    def paul():
        X, Y, Z = L.pauli_matrices()
        for g, w in zip((X, Y, Z), O.PAULI[1:]):
            eq("pauli_matrices", g, w)
    yield "paulis", paul


# ---------------------------------------------------------------- C02
def mats(rng, n):
    """square matrices of every numeric type"""
    re = rng.normal(size=(n, n))
    im = rng.normal(size=(n, n))
    it = rng.integers(-5, 6, size=(n, n))
    sp = np.where(rng.random((n, n)) < 0.5, 0, re)
    return {"float": re, "complex": re + 1j * im, "int": it, "imag": 1j * im, "sparse": sp, "zero": np.zeros((n, n)),
            "herm": O.herm(rng, n), "asym": O.asym(rng, n), "big": 1e6 * re + 1e6j * im, "tiny": 1e-9 * (re + 1j * im),
            "bool": re > 0, "complex64": (re + 1j * im).astype(np.complex64),
            "fortran": np.asfortranarray(re + 1j * im), "intzero": np.zeros((n, n), dtype=int)}


def C02(ctx):
    def H(n, A, B):
        got = L.build_H(n, A) if B is None else L.build_H(n, A, B)
        BB = np.zeros((n, n)) if B is None else B
        want = np.block([[-np.conj(A * 1.0), BB], [-np.conj(BB * 1.0), A]]).astype(complex)
        require(np.iscomplexobj(got), "build_H: result not complex", dtype=got.dtype)
        eqw("build_H", got, want, 1e-14 * np.abs(want), n=n, A=A, B=B)

    def V(n, A, Z):
        got = L.build_V(n, A) if Z is None else L.build_V(n, A, Z)
        ZZ = np.zeros((n, n)) if Z is None else Z
        want = np.block([[-np.conj(ZZ * 1.0), A], [-np.conj(A * 1.0), ZZ]]).astype(complex)
        require(np.iscomplexobj(got), "build_V: result not complex", dtype=got.dtype)
        eqw("build_V", got, want, 1e-14 * np.abs(want), n=n, A=A, Z=Z)

    def kit(n, mu, t, d):
        A = np.zeros((n, n))
        B = np.zeros((n, n))
        for i in range(n):
            A[i, i] = -mu
            if i + 1 < n:
                A[i, i + 1] = A[i + 1, i] = -t
                B[i, i + 1] = d
                B[i + 1, i] = -d
        want = O.bdg(A, B)
        eqw("kitaev_chain", L.kitaev_chain(n, mu, t, d), want, 1e-14 * np.abs(want), n=n, mu=mu, t=t, delta=d)

    def rh(n, fixedN, seed):
        G = L.random_H_generator(n, fixedN=fixedN, seed=seed)
        w = dict(n=n, fixedN=fixedN, seed=seed)
        require(G.shape == (2 * n, 2 * n), "random_H_generator: shape", **w)
        A, B = G[n:, n:], G[:n, n:]
        eq("random_H_generator Hermitian", G, G.conj().T, **w)
        eq("random_H_generator block form", G, O.bdg(A, B), **w)
        require(np.any(abs(A) > 1e-12) and (n == 1 or np.any(abs(A.imag) > 1e-12)), "random_H_generator: A degenerate", **w)
        if fixedN:
            require(not np.any(np.abs(B) > 0), "random_H_generator fixedN: pairing block not zero", **w)
        elif n > 1:
            require(np.any(abs(B) > 1e-12), "random_H_generator: no pairing", **w)
        sw = np.block([[np.zeros((n, n)), np.eye(n)], [np.eye(n), np.zeros((n, n))]])
        eq("particle-hole symmetry", sw @ G.conj() @ sw, -G, **w)

    for n in ctx.large(13, 300):
        rng = ctx.rng("C02", n)
        ms = mats(rng, n)
        for a in (("float", "complex"), ("complex", "float")):
            yield f"H n={n} {a}", lambda n=n, a=a, ms=ms: H(n, ms[a[0]], ms[a[1]])
            yield f"V n={n} {a}", lambda n=n, a=a, ms=ms: V(n, ms[a[0]], ms[a[1]])
        yield f"kitaev n={n}", lambda n=n: kit(n, 0.7, 1.3, -0.4)
        for f in (False, True):
            yield f"randH n={n} fixedN={f}", lambda n=n, f=f: rh(n, f, 3)
    for s in ctx.mags(1e-13, 1e7):
        rng = ctx.rng("C02m", s)
        Z, W = rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3)), rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3))
        for nm, a, b in (("A", s * Z, W), ("B", Z, s * W), ("both", s * Z, s * W), ("imag", Z.real + 1j * s * Z.imag, W.real + 1j * s * W.imag),
                         ("real A", s * Z.real, W), ("real B", Z, s * W.real)):
            yield f"H {nm} {s:g}", lambda a=a, b=b: H(3, a, b)
            yield f"V {nm} {s:g}", lambda a=a, b=b: V(3, a, b)
        yield f"H None {s:g}", lambda a=s * Z: H(3, a, None)
        yield f"V None {s:g}", lambda a=s * Z: V(3, a, None)
        for sg in (1, -1):
            for p in ((sg * s, 1.3, 0.4), (0.7, sg * s, 0.4), (0.7, 1.3, sg * s), (s, s, s), (s, sg * s, 0.3), (s, 0.3, sg * s), (0.3, s, sg * s)):
                yield f"kitaev {p}", lambda p=p: kit(4, *p)
    for n in ctx.sizes([1, 2, 3, 4, 7], 12 if ctx.quick else 40):
        rng = ctx.rng("C02", n)
        ms = mats(rng, n)
        for k in ms:
            if k != "bool":     # numpy cannot negate booleans
                yield f"H n={n} {k}/None", lambda n=n, A=ms[k]: H(n, A, None)
                yield f"V n={n} {k}/None", lambda n=n, A=ms[k]: V(n, A, None)
        for ka, kb in itertools.product(ms, ms):
            if "bool" in (ka, kb) or (n > 4 and (ka, kb) not in (("float", "complex"), ("complex", "float"),
                                                                  ("int", "complex"), ("complex", "int"))):
                continue
            yield f"H n={n} {ka}/{kb}", lambda n=n, A=ms[ka], B=ms[kb]: H(n, A, B)
            yield f"V n={n} {ka}/{kb}", lambda n=n, A=ms[ka], B=ms[kb]: V(n, A, B)
        for mu, t, d in [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0.3, -1.5, 2.5), (-2, 3, 4), (0, 0, 0), (1e-3, 1e5, -7),
                         (2, 1, 1), (0, 1, 1), (5, 1, -1), (2, 0.5, 0.25), (0.5, 2, 0.25), (0.5, 0.25, 2), (2, 3, 0.25),
                         (2, 0.25, 3), (0.25, 3, 2), (0, 0.5, -0.5), (np.int64(3), 1.5, -0.5), (True, 0.5, 1.5)]:
            yield f"kitaev n={n} {mu},{t},{d}", lambda n=n, mu=mu, t=t, d=d: kit(n, mu, t, d)
        for s in (None, 0, 1, 7, 2 ** 32 - 1):
            for f in (False, True):
                yield f"randH n={n} fixedN={f} seed={s}", lambda n=n, f=f, s=s: rh(n, f, s)
    for n in (16, 33):
        yield f"kitaev n={n}", lambda n=n: kit(n, 0.7, 1.3, -0.4)


# ---------------------------------------------------------------- C03
def C03(ctx):
    thr = sorted({1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2} | {c for c in mine_floats() if 0 < c < 1})

    def op(n, R, al, direct, verbose, label, form="list"):
        kw = {}
        if direct is not None:
            kw["direct"] = direct
        if verbose is not None:
            kw["verbose"] = verbose
        got = L.build_op(n, R, al, **kw)
        want = 0
        slack = 0               # entrywise: rounding plus the coefficients that may be dropped
        for i in range(2 * n):
            for j in range(2 * n):
                m = (al[i] if direct else al[i].conj().T) @ al[j]
                want = want + R[i, j] * m
                slack = slack + np.abs(R[i, j]) * (np.abs(al[i]) if direct else np.abs(al[i]).T) @ np.abs(al[j]) * (1 if abs(R[i, j]) < 1e-10 else 1e-13)
        tol = slack * (1 + 1e-9) + 1e-290
        require(got.shape == want.shape and np.all(np.abs(got - want) <= tol),
                f"build_op({label}) is not the documented sum", n=n, R=R, direct=direct, verbose=verbose, got=got, want=want)

    def rot(C, al, Left, verbose, swap, label):
        kw = {}
        if Left is not None:
            kw["Left"] = Left
        if verbose is not None:
            kw["verbose"] = verbose
        got = L.rotate_operators(al, C, **kw) if swap else L.rotate_operators(C, al, **kw)
        m = len(al)
        require(len(got) == m, f"rotate_operators({label}): length", got=len(got), want=m)
        for j in range(m):
            co = np.array([np.conj(C[i, j]) if Left else C[j, i] for i in range(m)])
            want = sum(co[i] * al[i] for i in range(m))
            slack = sum(abs(co[i]) * np.abs(al[i]) * (1 if abs(co[i]) < 1e-9 else 1e-13) for i in range(m))
            tol = slack * (1 + 1e-9) + 1e-290
            require(got[j].shape == want.shape and np.all(np.abs(got[j] - want) <= tol),
                    f"rotate_operators({label})[{j}] is not the documented sum", C=C, Left=Left, verbose=verbose,
                    swapped=swap, got=got[j], want=want)

    for n in ctx.large(5, 40):
        rng = ctx.rng("C03l", n)
        al = [rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3)) for _ in range(2 * n)]
        R = rng.normal(size=(2 * n, 2 * n)) + 1j * rng.normal(size=(2 * n, 2 * n))
        for d in (None, False, True):
            for vb in (None, False):
                yield f"op n={n} direct={d} verbose={vb}", lambda a=(n, R, al, d, vb, "large"): op(*a)
                yield f"rot n={n} Left={d} verbose={vb}", lambda a=(R, al, d, vb, False, "large"): rot(*a)
                yield f"rot n={n} Left={d} verbose={vb} swap", lambda a=(R, al, d, vb, True, "large"): rot(*a)
        if n <= 7:
            jw = O.alphas(n)
            yield f"op n={n} jw", lambda a=(n, R, jw, None, None, "large jw"): op(*a)
            yield f"rot n={n} jw", lambda a=(R, jw, None, None, False, "large jw"): rot(*a)
    for n in ctx.sizes([1, 2, 3, 4], 5):
        rng = ctx.rng("C03", n)
        jw = O.alphas(n)
        rnd = [(rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3))) for _ in range(2 * n)]
        big = [1e9 * x for x in rnd]
        Rs = {"complex": rng.normal(size=(2 * n, 2 * n)) + 1j * rng.normal(size=(2 * n, 2 * n)),
              "real": rng.normal(size=(2 * n, 2 * n)), "neg": -np.abs(rng.normal(size=(2 * n, 2 * n))),
              "imag": 1j * rng.normal(size=(2 * n, 2 * n)), "int": rng.integers(-3, 4, size=(2 * n, 2 * n)),
              "zero": np.zeros((2 * n, 2 * n)), "bdg": O.bdg(O.herm(rng, n), O.asym(rng, n)),
              "tri": np.triu(rng.normal(size=(2 * n, 2 * n)))}
        for e in thr:
            for f in (1.001, 2, 0.5):
                ph = np.exp(2j * np.pi * rng.random((2 * n, 2 * n)))
                Rs[f"mag{e * f:g}"] = e * f * ph
                if n == 2:
                    Rs[f"neg{e * f:g}"] = -e * f * np.ones((2 * n, 2 * n))
                    Rs[f"im{e * f:g}"] = -1j * e * f * np.ones((2 * n, 2 * n))
        for q in range(3 if n <= 3 else 1):       # entries over twenty orders of magnitude
            Rs[f"range{q}"] = 10.0 ** rng.uniform(-9, 11, size=(2 * n, 2 * n)) * np.exp(2j * np.pi * rng.random((2 * n, 2 * n)))
        one = 10.0 ** rng.uniform(-8, 0, size=(2 * n, 2 * n))
        one[int(rng.integers(2 * n)), int(rng.integers(2 * n))] = 1e8
        Rs["outlier"] = one
        for k, R in Rs.items():
            small = k[:3] in ("mag", "neg", "im1", "im2", "im5") and k != "neg"
            for direct in (None, False, True):
                for verbose in ((None, True) if n <= 2 and not small else (None,)):
                    for al, nm in ((jw, "jw"), (rnd, "rnd"), (big, "big")):
                        if small and nm != "big" or n == 4 and nm == "rnd":
                            continue
                        yield (f"op n={n} {k} {nm} direct={direct} verbose={verbose}",
                               lambda a=(n, R, al, direct, verbose, f"{k},{nm}"): op(*a))
            for Left in (None, False, True):
                for verbose in ((None, True) if n <= 2 and not small else (None,)):
                    for swap in (False, True):
                        for al, nm in ((jw, "jw"), (rnd, "rnd"), (big, "big")):
                            if small and (nm != "big" or swap) or n == 4 and nm == "rnd":
                                continue
                            yield (f"rot n={n} {k} {nm} Left={Left} verbose={verbose} swap={swap}",
                                   lambda a=(R, al, Left, verbose, swap, f"{k},{nm}"): rot(*a))
        # operators of any numeric type, also mixed
        itg = [x.real.round().astype(int) for x in jw]
        kinds = {"int": itg, "real": [x.real for x in rnd], "float32": [x.real.astype(np.float32) for x in rnd],
                 "int first": itg[:1] + jw[1:], "float last": jw[:-1] + [jw[-1].real], "real, then complex": [rnd[0].real] + rnd[1:]}
        for nm, al in kinds.items():
            for k in ("complex", "real", "imag", "int", "bdg"):
                R = Rs[k]
                for d in (False, True):
                    yield f"op n={n} {k} {nm} ops direct={d}", lambda a=(n, R, al, d, None, f"{k},{nm} ops"): op(*a)
                    yield f"rot n={n} {k} {nm} ops Left={d}", lambda a=(R, al, d, None, d, f"{k},{nm} ops"): rot(*a)
    # odd number of operators and rectangular operators are allowed for rotations
    rng = ctx.rng("C03odd")
    for m, shp in ((1, (2, 2)), (3, (2, 5)), (5, (4, 1))):
        al = [rng.normal(size=shp) + 1j * rng.normal(size=shp) for _ in range(m)]
        C = rng.normal(size=(m, m)) + 1j * rng.normal(size=(m, m))
        for Left in (False, True):
            for swap in (False, True):
                yield f"rot m={m} Left={Left} swap={swap}", lambda a=(C, al, Left, None, swap, f"m={m}"): rot(*a)


# ---------------------------------------------------------------- C04
def C04(ctx):
    def omega(n):
        got = L.build_Omega(n)
        Id = np.eye(n)
        want = np.block([[Id, Id], [1j * Id, -1j * Id]]) / np.sqrt(2)
        eq("build_Omega", got, want, 1e-12, n=n)
        require(O.is_unitary(got), "build_Omega not unitary", n=n)

    def reord(n):
        want = np.zeros((2 * n, 2 * n))
        for i in range(n):
            want[i, 2 * i] = 1
            want[n + i, 2 * i + 1] = 1
        eq("build_reordering_xx_to_xp", L.build_reordering_xx_to_xp(n), want, 1e-14, n=n)

    def K(n):
        got = np.asarray(L.build_K(n))
        Id = np.eye(n)
        P = np.zeros((2 * n, 2 * n))
        for i in range(n):
            P[i, 2 * i] = P[n + i, 2 * i + 1] = 1
        w = np.array([[1, -1j], [1j, -1]]) / np.sqrt(2)
        want = np.diag([1] * n + [-1j] * n) @ P @ np.kron(Id, w) @ (
            np.block([[Id, Id], [1j * Id, -1j * Id]]) / np.sqrt(2))
        eq("build_K", got, want, 1e-12, n=n)
        require(O.is_unitary(got), "build_K not unitary", n=n)

    def perm(p, kind):
        arg = {"list": list(p), "array": np.array(p, dtype=int), "tuple": tuple(p)}[kind]
        got = L.permutation_to_matrix(arg)
        n = len(p)
        if sorted(p) == list(range(n)):
            want = np.zeros((n, n))
            for i in range(n):
                want[p[i], i] = 1
            require(got is not None, "permutation_to_matrix rejects a permutation", p=p)
            eq("permutation_to_matrix", got, want, 1e-14, p=p)
        else:
            require(got is None, "permutation_to_matrix accepts a list that is not a permutation", p=p, got=got)

    for n in ctx.large(65, 300):
        yield f"Omega n={n}", lambda n=n: omega(n)
        yield f"reorder n={n}", lambda n=n: reord(n)
        yield f"K n={n}", lambda n=n: K(n)
    for n in ctx.large(7, 300):
        rng = ctx.rng("C04p", n)
        p = list(map(int, rng.permutation(n)))
        q = list(p)
        q[int(rng.integers(n))] = q[int(rng.integers(n))]
        yield f"perm n={n}", lambda p=p: perm(p, "list")
        yield f"perm n={n} repeated", lambda q=q: perm(q, "list")
    for n in ctx.sizes([1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 31], 64):
        yield f"Omega n={n}", lambda n=n: omega(n)
        yield f"reorder n={n}", lambda n=n: reord(n)
        yield f"K n={n}", lambda n=n: K(n)
    for n in range(1, 5 if ctx.quick else 6):
        for p in itertools.product(range(-2, n + 2), repeat=n):
            yield f"perm {p}", lambda p=p: perm(p, "list")
    for n in (5, 6):
        for p in itertools.permutations(range(n)):
            yield f"perm {p}", lambda p=p: perm(p, "array")
    rng = ctx.rng("C04")
    for n in (5, 6, 7, 9, 13, 20, 40):
        for k in range(40):
            p = list(map(int, rng.permutation(n)))
            yield f"perm {p}", lambda p=p: perm(p, "tuple")
            q = list(p)
            q[int(rng.integers(n))] = int(rng.integers(-n, 2 * n))
            yield f"perm {q}", lambda p=q: perm(p, "list")
            q = list(p)
            i, j = rng.integers(n, size=2)
            q[i] = q[j]
            yield f"perm {q}", lambda p=q: perm(p, "array")


# ---------------------------------------------------------------- C05
def valid_H(rng, n):
    Z = np.zeros((n, n), dtype=complex)
    U = O.unitary(rng, n)
    d1 = np.diag(rng.integers(-2, 3, size=n)).astype(complex)
    out = {"random": O.bdg(O.herm(rng, n), O.asym(rng, n)), "zero": O.bdg(Z, Z), "A only": O.bdg(O.herm(rng, n), Z),
           "B only": O.bdg(Z, O.asym(rng, n)), "A diag": O.bdg(d1, Z), "A deg": O.bdg(U @ d1 @ U.conj().T, Z),
           "Id": O.bdg(np.eye(n).astype(complex), Z), "-Id": O.bdg(-np.eye(n).astype(complex), Z),
           "neg": O.bdg(-np.diag(np.arange(1, n + 1)).astype(complex), Z),
           "real": O.bdg(O.herm(rng, n).real.astype(complex), O.asym(rng, n).real.astype(complex)),
           "small": O.bdg(O.herm(rng, n, 1e-2), O.asym(rng, n, 1e-2)),
           "large": O.bdg(O.herm(rng, n, 50), O.asym(rng, n, 50)),
           "rank1": O.bdg(np.outer(U[:, 0], U[:, 0].conj()), Z)}
    for (mu, t, d) in ((0, 1, 1), (2, 1, 1), (0.5, 1, 0), (0, 0, 1), (1, 0, 0), (0, 1, -1), (0.3, 1, 0.5), (-1, 2, 0.1)):
        A = -mu * np.eye(n) - t * (np.eye(n, k=1) + np.eye(n, k=-1))
        B = d * (np.eye(n, k=1) - np.eye(n, k=-1))
        out[f"kitaev{mu},{t},{d}"] = O.bdg(A.astype(complex), B.astype(complex))
    # hand-made Bogoliubov spectrum: H = W diag(-e, e) W^+ with W canonical
    if n >= 1:
        G = O.bdg(O.herm(rng, n), O.asym(rng, n))
        W = O.expmh(0 * G) if n == 0 else None
        w, v = np.linalg.eigh(G)
        W = (v * np.exp(1j * w)) @ v.conj().T      # exp(iG): unitary and canonical
        for nm, e in (("deg", np.ones(n)), ("zm", np.r_[0.0, np.arange(1, n)]), ("allzero-1", np.r_[1.0, np.zeros(n - 1)]),
                      ("pairs", np.repeat(0.5 + np.arange((n + 1) // 2) % 4, 2)[:n])):
            out["spec " + nm] = W @ np.diag(np.r_[-e, e]) @ W.conj().T
    for k in out:
        out[k] = (out[k] + out[k].conj().T) / 2
    return out


def canon(U, tol=1e-7):
    n = U.shape[0] // 2
    return (np.allclose(U[:n, :n], U[n:, n:].conj(), atol=tol) and np.allclose(U[:n, n:], U[n:, :n].conj(), atol=tol))


def C05(ctx):
    def h(H, label):
        n = H.shape[0] // 2
        Lm, U = L.eigh_sp(H.copy())
        Lm, U = np.asarray(Lm), np.asarray(U)
        s = np.abs(H).max() or 1.0
        w = dict(H=H)
        require(U.shape == H.shape and O.is_unitary(U, 1e-7), f"eigh_sp({label}): U not unitary", **w)
        require(canon(U), f"eigh_sp({label}): U not of canonical form", **w)
        require(np.allclose(Lm, U.conj().T @ H @ U, rtol=0, atol=1e-9 * s), f"eigh_sp({label}): L != U^+ H U", **w)
        require(np.allclose(Lm, np.diag(np.diag(Lm).real), rtol=0, atol=1e-9 * s), f"eigh_sp({label}): L not real diagonal", **w)
        require(np.allclose(np.diag(Lm)[n:], -np.diag(Lm)[:n], rtol=0, atol=1e-9 * s),
                f"eigh_sp({label}): lower block is not minus the upper", **w)

    # a diagonal entry of U just above 1e-9 fixes its phase to seven digits only: U is canonical to about 1e-7
    def v(H, label):
        n = H.shape[0] // 2
        S = np.block([[np.zeros((n, n)), np.eye(n)], [np.eye(n), np.zeros((n, n))]])
        V = S @ H
        Lm, U = L.eigv_sp(V.copy())
        Lm, U = np.asarray(Lm), np.asarray(U)
        s = np.abs(H).max() or 1.0
        require(U.shape == V.shape and O.is_unitary(U, 1e-7) and canon(U), f"eigv_sp({label}): U not canonical unitary", V=V)
        require(np.allclose(U.T @ V @ U, Lm, rtol=0, atol=3e-7 * s), f"eigv_sp({label}): U^T V U != L", V=V)
        require(np.allclose(Lm[:n, :n], 0, rtol=0, atol=3e-7 * s) and np.allclose(Lm[n:, n:], 0, rtol=0, atol=3e-7 * s),
                f"eigv_sp({label}): diagonal blocks not zero", V=V)

    def m(H, label, can):
        n = H.shape[0] // 2
        Id = np.eye(n)
        Om = np.block([[Id, Id], [1j * Id, -1j * Id]]) / np.sqrt(2)
        G = Om @ H @ Om.conj().T
        G = 1j * G.imag
        G = (G - G.T) / 2
        f = L.eigm_sp_can if can else L.eigm_sp
        Lm, Or = f(G.copy())
        Lm, Or = np.asarray(Lm), np.asarray(Or)
        s = np.abs(G).max() or 1.0
        nm = f"{f.__name__}({label})"
        require(Or.shape == G.shape and np.allclose(Or.imag, 0, atol=1e-7) and O.is_unitary(Or, 1e-7),
                f"{nm}: O not real orthogonal", G=G)
        require(np.allclose(Or.T @ G @ Or, Lm, rtol=0, atol=3e-7 * s), f"{nm}: O^T G O != L", G=G)
        if can:
            M = np.zeros_like(Lm)
            for k in range(n):
                M[2 * k, 2 * k + 1] = Lm[2 * k, 2 * k + 1]
                M[2 * k + 1, 2 * k] = -Lm[2 * k, 2 * k + 1]
            require(np.allclose(M, Lm, rtol=0, atol=3e-7 * s), f"{nm}: not a direct sum of 2x2 antisymmetric blocks", G=G, L=Lm)
        else:
            D = np.diag(np.diag(Lm[:n, n:]))
            M = np.block([[0 * D, D], [-D, 0 * D]])
            require(np.allclose(M, Lm, rtol=0, atol=3e-7 * s), f"{nm}: not [[0,D],[-D,0]]", G=G, L=Lm)

    for n in ctx.large(7, 60):
        rng = ctx.rng("C05l", n)
        for k, H in valid_H(rng, n).items():
            if n > 12 and k in ("large", "tiny"):
                continue
            yield f"eigh_sp n={n} {k}", lambda H=H, k=k: h(H, k)
            yield f"eigv_sp n={n} {k}", lambda H=H, k=k: v(H, k)
            yield f"eigm_sp n={n} {k}", lambda H=H, k=k: m(H, k, False)
            yield f"eigm_sp_can n={n} {k}", lambda H=H, k=k: m(H, k, True)
    for sc in ctx.mags(1e-13, 1e6):
        rng = ctx.rng("C05m", sc)
        A, B = O.herm(rng, 3), O.asym(rng, 3)
        for nm, H in (("all", O.bdg(sc * A, sc * B)), ("A", O.bdg(sc * A, B)), ("B", O.bdg(A, sc * B)),
                      ("imag A", O.bdg(A.real + 1j * sc * A.imag, B)), ("imag B", O.bdg(A, B.real + 1j * sc * B.imag))):
            k = f"{nm} {sc:g}"
            yield f"eigh_sp {k}", lambda H=H, k=k: h(H, k)
            yield f"eigv_sp {k}", lambda H=H, k=k: v(H, k)
            yield f"eigm_sp {k}", lambda H=H, k=k: m(H, k, False)
            yield f"eigm_sp_can {k}", lambda H=H, k=k: m(H, k, True)
    for rep in range(3 if ctx.quick else 30):
        for n in ctx.sizes([1, 2, 3, 4, 5, 6], 7 if ctx.quick else 9):
            rng = ctx.rng("C05", n, rep)
            for k, H in valid_H(rng, n).items():
                yield f"eigh_sp n={n} {k} #{rep}", lambda H=H, k=k: h(H, k)
                yield f"eigv_sp n={n} {k} #{rep}", lambda H=H, k=k: v(H, k)
                yield f"eigm_sp n={n} {k} #{rep}", lambda H=H, k=k: m(H, k, False)
                yield f"eigm_sp_can n={n} {k} #{rep}", lambda H=H, k=k: m(H, k, True)


# ---------------------------------------------------------------- C06
def C06(ctx):
    def weight(rho, al):
        """entrywise bound on the size of the sums behind tr(rho x y)"""
        f = [np.linalg.norm(x) for x in al]
        return np.linalg.norm(rho) * np.outer(f, f)

    def two(rho, n, al, conj, given, label):
        args = {}
        if given:
            args["alphas"] = al
        if conj != "default":
            args["conjugation"] = conj
        got = L.compute_2corr_matrix(rho, n, **args)
        c = None if conj == "default" else conj
        want = np.zeros((2 * n, 2 * n), dtype=complex)
        slack = 1e-12 * len(rho) * weight(rho, al)
        for i in range(2 * n):
            for j in range(2 * n):
                x, y = al[i], al[j]
                if c is not None:
                    if c is not True and c < 0:
                        x = x.conj().T
                    else:
                        y = y.conj().T
                want[i, j] = np.trace(rho @ x @ y)
        eq(f"compute_2corr_matrix({label}, conjugation={conj})", got, want, 1e-9, n=n, rho=rho)
        eqw(f"compute_2corr_matrix({label}, conjugation={conj}, entrywise)", got, want, slack, n=n, rho=rho)

    def cov(rho, n, al, given, pass_n, label):
        kw = {}
        if given:
            kw["alphas"] = al
        if pass_n:
            kw["n_sites"] = n
        got = L.compute_cov_matrix(rho, **kw)
        want = np.array([[np.trace(rho @ al[i] @ al[j]) - np.trace(rho @ al[j] @ al[i]) for j in range(2 * n)]
                         for i in range(2 * n)])
        eq(f"compute_cov_matrix({label})", got, want, 1e-9, n=n, rho=rho)
        eqw(f"compute_cov_matrix({label}, entrywise)", got, want, 1e-12 * len(rho) * weight(rho, al), n=n, rho=rho)

    def corr(rho, n):
        al = O.alphas(n)
        want = np.array([[np.trace(rho @ x @ y) for y in al] for x in al])
        got = L.correlation_matrix(rho)
        eq("correlation_matrix", got, want, 1e-9, rho=rho)
        eqw("correlation_matrix, entrywise", got, want, 1e-12 * len(rho) * weight(rho, al), rho=rho)

    def alg(al, label, want, verbose=None):
        got = L.compute_algebra_S(al) if verbose is None else L.compute_algebra_S(al, verbose=verbose)
        eq(f"compute_algebra_S({label})", got, want, 1e-7)
        # entries below numpy's default closeness to zero may be dropped
        eqw(f"compute_algebra_S({label}, entrywise)", got, want, 2e-8 + 1e-6 * np.abs(want))

    for s in (1e-10, 1e-7, 1e-6, 1e-5, 1e-4, 1e4):
        for n in (1, 2):
            Z, I = np.zeros((n, n)), np.eye(n)
            yield f"alg scaled {s:g} n={n}", lambda n=n, s=s: alg([s ** .5 * x for x in O.majoranas(n)], f"scaled {s:g}", s * np.eye(2 * n))
            yield (f"alg scaled jw {s:g} n={n}", lambda n=n, s=s, S=np.block([[Z, I], [I, Z]]): alg(
                [x * (s if k < n else 1) for k, x in enumerate(O.alphas(n))], f"scaled {s:g}", s * S))
    for s in ctx.mags(1e-13, 1e6):
        rng = ctx.rng("C06m", s)
        X, Y = [rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4)) for _ in range(2)]
        al = [rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4)) for _ in range(4)]
        D = np.diag(np.diag(X))
        for nm, x in (("scaled", s * X), ("imag", X.real + 1j * s * X.imag), ("off", D + s * (X - D)), ("anti", X + X.conj().T + s * Y)):
            for c in (None, True, 1, -1):
                yield f"2corr {nm} {s:g} {c!r}", lambda a=(x, 2, al, c, True, f"{nm} {s:g}"): two(*a)
            yield f"2corr {nm} {s:g} jw", lambda a=(x, 2, O.alphas(2), "default", False, f"{nm} {s:g}"): two(*a)
            yield f"cov {nm} {s:g}", lambda a=(x, 2, al, True, True, f"{nm} {s:g}"): cov(*a)
            yield f"cov {nm} {s:g} jw", lambda a=(x, 2, O.alphas(2), False, False, f"{nm} {s:g}"): cov(*a)
            yield f"corr {nm} {s:g}", lambda x=x: corr(x, 2)
    for s in (1e-20, 1e-14):
        rng = ctx.rng("C06f", s)
        X = rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4))
        for nm, x in (("faint", s * X), ("faint imag", X.real + 1j * s * X.imag)):
            for c in ("default", True, -1):
                yield f"2corr {nm} {s:g} {c!r}", lambda a=(x, 2, O.alphas(2), c, False, f"{nm} {s:g}"): two(*a)
            yield f"cov {nm} {s:g}", lambda a=(x, 2, O.alphas(2), False, False, f"{nm} {s:g}"): cov(*a)
            yield f"corr {nm} {s:g}", lambda x=x: corr(x, 2)
    for n in ctx.large(4, 7):
        rng = ctx.rng("C06l", n)
        d = 2 ** n
        jw = O.alphas(n)
        rho = O.density(rng, d)
        for c in ("default", True, 1, -1):
            yield f"2corr n={n} {c!r}", lambda a=(rho, n, jw, c, False, "large"): two(*a)
        yield f"2corr n={n} given", lambda a=(rho, n, jw, None, True, "large"): two(*a)
        yield f"cov n={n}", lambda a=(rho, n, jw, False, False, "large"): cov(*a)
        yield f"cov n={n} given", lambda a=(rho, n, jw, True, True, "large"): cov(*a)
        yield f"corr n={n}", lambda rho=rho, n=n: corr(rho, n)
        Z, I = np.zeros((n, n)), np.eye(n)
        yield f"alg n={n}", lambda a=(jw, "large", np.block([[Z, I], [I, Z]]).astype(complex), None): alg(*a)
        yield f"alg n={n} maj", lambda a=(O.majoranas(n), "large", np.eye(2 * n), None): alg(*a)
    for n in ctx.sizes([1, 2, 3], 4 if ctx.quick else 5):
        for rep in range(2):
            rng = ctx.rng("C06", n, rep)
            d = 2 ** n
            jw = O.alphas(n)
            rnd = [rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d)) for _ in range(2 * n)]
            maj = O.majoranas(n)
            v = O.ket(rng, d)
            rhos = {"density": O.density(rng, d), "pure": np.outer(v, v.conj()),
                    "operator": rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d)),
                    "real": rng.normal(size=(d, d)), "mixed": np.eye(d) / d, "int": rng.integers(-3, 4, size=(d, d)),
                    "diag": np.diag(rng.dirichlet(np.ones(d)))}
            for kr, rho in rhos.items():
                for ka, al in (("jw", jw), ("rnd", rnd), ("maj", maj)):
                    for conj in ("default", None, True, 1, 2, -1, -3, np.int64(-1), np.int64(1), 7):
                        if n > 2 and (ka != "rnd" or kr not in ("density", "operator")) and conj not in (None, True, -1):
                            continue
                        if n > 3 and conj not in ("default", 1, -1):
                            continue
                        yield (f"2corr n={n} {kr} {ka} {conj!r} #{rep}",
                               lambda a=(rho, n, al, conj, True, f"{kr},{ka}"): two(*a))
                        if ka == "jw":
                            yield (f"2corr n={n} {kr} default-ops {conj!r} #{rep}",
                                   lambda a=(rho, n, al, conj, False, f"{kr},none"): two(*a))
                    for pn in (True, False):
                        yield (f"cov n={n} {kr} {ka} {pn} #{rep}", lambda a=(rho, n, al, True, pn, f"{kr},{ka}"): cov(*a))
                        if ka == "jw":
                            yield (f"cov n={n} {kr} none {pn} #{rep}",
                                   lambda a=(rho, n, al, False, pn, f"{kr},none"): cov(*a))
                yield f"corr n={n} {kr} #{rep}", lambda rho=rho, n=n: corr(rho, n)
            Z, I = np.zeros((n, n)), np.eye(n)
            S0 = np.block([[Z, I], [I, Z]]).astype(complex)
            M = rng.normal(size=(2 * n, 2 * n)) + 1j * rng.normal(size=(2 * n, 2 * n))
            gen = [sum(M[j, i] * jw[i] for i in range(2 * n)) for j in range(2 * n)]
            scal = [(1e-3 if k % 2 else 30) * x for k, x in enumerate(jw)]
            sc = np.array([1e-3 if k % 2 else 30.0 for k in range(2 * n)])
            lists = [("jw", jw, S0), ("maj", maj, np.eye(2 * n)), ("lin", gen, M @ S0 @ M.T),
                     ("scaled", scal, S0 * np.outer(sc, sc)), ("phase", [1j * x for x in jw], -S0),
                     ("zero", [0 * x for x in jw], 0 * S0),
                     ("large", [300 * x for x in gen], 90000 * (M @ S0 @ M.T))]
            if n >= 2:
                # fewer operators than 2 n_sites; operators acting on a bigger space
                lists.append(("sub", jw[:2], np.zeros((2, 2))))
                lists.append(("pair", [jw[0], jw[n]], np.array([[0, 1], [1, 0]])))
            for k, al, S in lists:
                for vb in (None, True):
                    yield f"alg n={n} {k} verbose={vb} #{rep}", lambda a=(al, k, S, vb): alg(*a)


# ---------------------------------------------------------------- C07
def is_density(rho, tol=1e-8):
    rho = np.asarray(rho)
    return (np.all(np.isfinite(rho)) and abs(np.trace(rho) - 1) < tol and np.allclose(rho, rho.conj().T, atol=tol)
            and np.linalg.eigvalsh((rho + rho.conj().T) / 2).min() > -tol)


def C07(ctx):
    def gauss(n, H, al, label):
        got = L.generate_gaussian_state(n, H) if al is None else L.generate_gaussian_state(n, H, al)
        if H.shape[0] == 2 * n:
            ops = O.alphas(n) if al is None else al
            X = sum(H[i, j] * (ops[i].conj().T @ ops[j]) for i in range(2 * n) for j in range(2 * n))
        else:
            X = H
        if np.array_equal(X, X.conj().T):
            lam, V = np.linalg.eigh(X)
            E = (V * np.exp(lam[0] - lam)) @ V.conj().T
        else:
            E = O.expm(-X)
        eq(f"generate_gaussian_state({label})", got, E / np.trace(E), 1e-7, n=n, H=H)
        if np.allclose(X, X.conj().T, rtol=0, atol=1e-13):
            require(is_density(got), f"generate_gaussian_state({label}) not a density matrix", n=n, H=H)

    def ffs(n, fixedN, seed, returnH, pure, pre):
        np.random.seed(pre)
        kw = dict(fixedN=fixedN, returnH=returnH, pure=pure)
        if seed is not None:
            kw["seed"] = seed
        r = L.random_FF_state(n, **kw)
        w = dict(n=n, pre_seed=pre, **kw)
        G = None
        if returnH:
            require(isinstance(r, tuple) and len(r) == 2, "random_FF_state returnH: not a pair", **w)
            r, G = r
            require(np.shape(G) == (2 ** n, 2 ** n) and np.allclose(G, G.conj().T, atol=1e-8),
                    "random_FF_state: returned generator not Hermitian", **w)
        if pure:
            require(np.size(r) == 2 ** n and abs(np.linalg.norm(r) - 1) < 1e-8, "random_FF_state pure: not a unit vector", **w)
            if G is not None:
                e0 = np.zeros(2 ** n)
                e0[0] = 1
                ww, vv = np.linalg.eigh(G)
                require(np.allclose(np.ravel(r), (vv * np.exp(-1j * ww)) @ vv.conj().T @ e0, atol=1e-7),
                        "random_FF_state pure: psi != exp(-iG)|0>", **w)
        else:
            require(np.shape(r) == (2 ** n, 2 ** n) and is_density(r), "random_FF_state: not a density matrix", **w)
            if G is not None:
                # log rho = -beta G - log Z on well-conditioned eigenvectors
                ww, vv = np.linalg.eigh((G + G.conj().T) / 2)
                D = vv.conj().T @ r @ vv
                require(np.allclose(D, np.diag(np.diag(D)), atol=1e-8), "random_FF_state: rho does not commute with G", **w)
                p = np.diag(D).real
                require(p.min() > -1e-9, "random_FF_state: negative", **w)
                i0, i1 = np.argmin(ww), np.argmax(ww)
                beta = None
                for i in range(len(ww)):
                    if p[i] > 1e-9 and p[i0] > 1e-9 and ww[i] - ww[i0] > 1e-3:
                        b = (np.log(p[i0]) - np.log(p[i])) / (ww[i] - ww[i0])
                        require(b > -1e-8, "random_FF_state: beta < 0", beta=b, **w)
                        require(beta is None or abs(b - beta) < 1e-4 * max(1, beta),
                                "random_FF_state: rho is not exp(-beta G)/Z", **w)
                        beta = b if beta is None else beta
                if beta is None:
                    beta = 1e3
                if beta < 300:
                    q = np.exp(-beta * (ww - ww[i0]))
                    require(np.allclose(q / q.sum(), p, atol=1e-6), "random_FF_state: rho != exp(-beta G)/Z", **w)
                if fixedN:
                    N = np.diag([bin(k).count("1") for k in range(2 ** n)]).astype(complex)
                    require(np.allclose(N @ G, G @ N, atol=1e-8), "random_FF_state fixedN: [N,G] != 0", **w)
        if fixedN and not pure:
            N = np.diag([bin(k).count("1") for k in range(2 ** n)]).astype(complex)
            require(np.allclose(N @ r, r @ N, atol=1e-7), "random_FF_state fixedN: state mixes particle numbers", **w)

    def parity_ok(rho, n):
        P = np.diag([(-1.0) ** bin(k).count("1") for k in range(2 ** n)])
        return np.allclose(P @ rho, rho @ P, atol=1e-7)

    def gaussian(rho, n):
        """Wick's theorem for four operators (n >= 2): a necessary condition for a free-fermion state"""
        g = [np.sqrt(2) * x for x in O.majoranas(n)]
        c = lambda *ix: np.trace(rho @ np.linalg.multi_dot([g[i] for i in ix]))  # noqa: E731
        for (i, j, k, l) in itertools.combinations(range(2 * n), 4):
            lhs = c(i, j, k, l)
            rhs = c(i, j) * c(k, l) - c(i, k) * c(j, l) + c(i, l) * c(j, k)
            if abs(lhs - rhs) > 1e-6:
                return False
        return True

    def randH(n, seed, pre):
        np.random.seed(pre)
        from ff import ff_random_states as R
        rho = R.random_FF_state_randH(n, seed=seed) if seed is not None else R.random_FF_state_randH(n)
        require(rho.shape == (2 ** n, 2 ** n) and is_density(rho), "random_FF_state_randH: not a density matrix",
                n=n, seed=seed, pre=pre)
        require(parity_ok(rho, n), "random_FF_state_randH: odd part", n=n, seed=seed)
        if 2 <= n <= 4:
            require(gaussian(rho, n), "random_FF_state_randH: Wick's theorem fails", n=n, seed=seed, pre=pre)

    def rotpdf(n, seed, rs, pre):
        np.random.seed(pre)
        from ff import ff_random_states as R
        kw = {} if seed is None else dict(seed=seed)
        r = R.random_FF_state_rotPDF(n, returnS=rs, **kw)
        w = dict(n=n, seed=seed, returnS=rs, pre=pre)
        if rs:
            r, s = r
            require(len(s) == 2 ** n and abs(np.sum(s) - 1) < 1e-9 and np.min(s) >= 0, "rotPDF: s not a distribution", **w)
            ww, vv = np.linalg.eigh(r)
            require(np.allclose(ww, np.sort(s), rtol=0, atol=1e-9), "rotPDF: spectrum is not s", **w)
            if np.min(np.diff(ww)) > 1e-6:
                # W|i> is the eigenvector of s_i; the images of the sigma_z are quadratic in the Majorana operators
                at = np.argsort(np.argsort(s))
                g = O.majoranas(n)
                quad = np.array([2 * (x @ y).ravel() for x, y in itertools.combinations(g, 2)] + [np.eye(2 ** n).ravel()]).T / 2 ** (n / 2)
                for k in range(n):
                    z = np.array([1 - 2 * (i >> (n - 1 - k) & 1) for i in range(2 ** n)])
                    Q = ((vv[:, at] * z) @ vv[:, at].conj().T).ravel()
                    res = np.linalg.norm(Q - quad @ (quad.conj().T @ Q))
                    require(res < 1e-4, "rotPDF: state is not W diag(s) W^+ for a free-fermion rotation W and the returned s", at=k, s=s, **w)
        require(r.shape == (2 ** n, 2 ** n) and is_density(r), "random_FF_state_rotPDF: not a density matrix", **w)
        require(parity_ok(r, n) or True, "")

    from ff import ff_random_states as R  # noqa: F401
    for s in [x for x in (30, 100, 300) + tuple(ctx.mags(12, 500, False)) if x <= 500]:
        rng = ctx.rng("C07b", s)
        q = np.linalg.eigvalsh(O.bdg(O.herm(rng, 3), O.asym(rng, 3)))[-1]
        U = O.unitary(rng, 8)
        for nm, H in (("quadratic", s / q * O.bdg(O.herm(rng, 3), O.asym(rng, 3)) / 3), ("diagonal", O.bdg(np.diag([s, s - 1.5, 0.3]), 0 * O.asym(rng, 3)) / 2),
                      ("op", U @ np.diag([s, s - 1, s - 2, -s, 1 - s, 2.5 - s, 0, 1]) @ U.conj().T),
                      ("real op", np.diag([s, s - 1, s - 2, -s, 1 - s, 2.5 - s, 0, 1]))):
            yield f"gauss {nm} norm {s:g}", lambda a=(3, (H + H.conj().T) / 2, None, f"{nm} norm {s:g}"): gauss(*a)
    for s in ctx.mags(1e-13, 12):
        rng = ctx.rng("C07m", s)
        A, B = O.herm(rng, 3), O.asym(rng, 3)
        for nm, H in (("all", O.bdg(s * A, s * B)), ("A", O.bdg(s * A, B)), ("B", O.bdg(A, s * B)), ("imag", O.bdg(A.real + 1j * s * A.imag, B)),
                      ("nonherm", O.bdg(A, B) + s * rng.normal(size=(6, 6)))):
            yield f"gauss {nm} {s:g}", lambda a=(3, H, None, f"{nm} {s:g}"): gauss(*a)
        X = O.herm(rng, 8)
        yield f"gauss op {s:g}", lambda a=(3, s * X / 3, None, f"op {s:g}"): gauss(*a)
        yield f"gauss op imag {s:g}", lambda a=(3, (X.real + 1j * s * X.imag) / 3, None, f"op imag {s:g}"): gauss(*a)
    for n in ctx.large(5, 8):
        rng = ctx.rng("C07l", n)
        H = O.bdg(O.herm(rng, n), O.asym(rng, n))
        yield f"gauss n={n} large", lambda a=(n, H / 4, None, "large"): gauss(*a)
        yield f"gauss n={n} op", lambda a=(n, O.herm(rng, 2 ** n) / 4, None, "large op"): gauss(*a)
        Q = O.unitary(rng, 2 ** n)
        yield f"gauss n={n} rotated ops", lambda a=(n, H / 4, [Q @ x @ Q.conj().T for x in O.alphas(n)], "large ops"): gauss(*a)
        for pure in (False, True):
            for fx in (False, True):
                yield (f"random_FF_state n={n} pure={pure} fixedN={fx}",
                       lambda a=(n, fx, 3, False, pure, 12): ffs(*a))
                yield (f"random_FF_state n={n} pure={pure} fixedN={fx} H",
                       lambda a=(n, fx, None, True, pure, 12): ffs(*a))
        yield f"randH n={n}", lambda a=(n, 3, 12): randH(*a)
        yield f"rotPDF n={n}", lambda a=(n, 3, True, 12): rotpdf(*a)
    for n in ctx.sizes([1, 2, 3], 4 if ctx.quick else 5):
        for rep in range(2 if ctx.quick else 10):
            rng = ctx.rng("C07", n, rep)
            d = 2 ** n
            for k, H in valid_H(rng, n).items():
                yield f"gauss n={n} {k} #{rep}", lambda a=(n, H if k != "large" else H / 25, None, k): gauss(*a)
            ops = O.alphas(n)
            Q = O.unitary(rng, d)
            rops = [Q @ x @ Q.conj().T for x in ops]
            H = O.bdg(O.herm(rng, n), O.asym(rng, n))
            yield f"gauss n={n} rotated ops #{rep}", lambda a=(n, H, rops, "ops"): gauss(*a)
            yield f"gauss n={n} jw ops #{rep}", lambda a=(n, H, ops, "jw"): gauss(*a)
            yield f"gauss n={n} non-hermitian #{rep}", lambda a=(n, H + 0.1 * rng.normal(size=H.shape), None, "nh"): gauss(*a)
            if d != 2 * n or n > 2:
                for nm, X in (("full", O.herm(rng, d)), ("zero", np.zeros((d, d))), ("diag", np.diag(rng.normal(size=d))),
                              ("real", O.herm(rng, d).real), ("shift", O.herm(rng, d) + 5 * np.eye(d))):
                    if n > 2:
                        yield f"gauss n={n} op {nm} #{rep}", lambda a=(n, X, None, nm): gauss(*a)
        for pre in range(3 if ctx.quick else 20):
            for seed in (None, 0, 1, 5, 42, 2 ** 31):
                for pure in (False, True):
                    for rh in (False, True):
                        for fx in (False, True):
                            yield (f"random_FF_state n={n} pre={pre} seed={seed} pure={pure} H={rh} fixedN={fx}",
                                   lambda a=(n, fx, seed, rh, pure, pre + 11): ffs(*a))
                if n <= 4:
                    yield f"randH n={n} pre={pre} seed={seed}", lambda a=(n, seed, pre + 11): randH(*a)
                    for rs in (False, True):
                        yield f"rotPDF n={n} pre={pre} seed={seed} S={rs}", lambda a=(n, seed, rs, pre + 11): rotpdf(*a)


# ---------------------------------------------------------------- C08
def C08(ctx):
    def sy(U, label):
        n = U.shape[0] // 2
        S = np.block([[np.zeros((n, n)), np.eye(n)], [np.eye(n), np.zeros((n, n))]])
        want = np.allclose(U @ S @ U.T, S)
        got = L.is_symp(U)
        require(bool(got) == bool(want) and (got is True or got is False or isinstance(got, np.bool_)),
                f"is_symp({label})", U=U, got=got, want=want)

    def cf(M, label):
        want = M.ndim == 2 and M.shape[0] == M.shape[1] and M.shape[0] % 2 == 0
        if want:
            B = np.zeros_like(M)
            for k in range(0, M.shape[0], 2):
                B[k, k + 1] = M[k, k + 1]
                B[k + 1, k] = M[k + 1, k]
            want = np.allclose(M, M.conj()) and np.allclose(M, -M.T) and np.allclose(B, M)
        got = L.check_canonical_form(M)
        require(bool(got) == bool(want), f"check_canonical_form({label})", M=M, got=got, want=want)

    def mg(M, label, verbose=None):
        want = M.shape == (4, 4)
        if want:
            din = M[1, 1] * M[2, 2] - M[1, 2] * M[2, 1]
            dco = M[0, 0] * M[3, 3] - M[0, 3] * M[3, 0]
            want = np.allclose(din, dco)
            if abs(abs(din - dco) - (1e-8 + 1e-5 * abs(dco))) < 1e-10 * (1 + abs(dco)) * 1e3:
                return      # on the tolerance boundary: rounding decides
        got = L.is_matchgate(M) if verbose is None else L.is_matchgate(M, verbose=verbose)
        require(bool(got) == bool(want), f"is_matchgate({label})", M=M, got=got, want=want)

    def shifted(M, d):
        """M with its corner determinant changed by d"""
        M = M.copy()
        M[3, 3] += d / M[0, 0]
        return M

    for n in ctx.sizes([1, 2, 3, 4, 5], 8) + ctx.large(9, 40):
        for rep in range((2 if ctx.quick else 10) if n <= 8 else 1):
            rng = ctx.rng("C08", n, rep)
            Id = np.eye(n)
            Om = np.block([[Id, Id], [1j * Id, -1j * Id]]) / np.sqrt(2)
            q, _ = np.linalg.qr(rng.normal(size=(2 * n, 2 * n)))
            q2, _ = np.linalg.qr(rng.normal(size=(2 * n, 2 * n)))
            co = Om.conj().T @ (q.astype(complex)) @ Om             # canonical, symplectic (either determinant)
            S = np.block([[0 * Id, Id], [Id, 0 * Id]])
            X = rng.normal(size=(2 * n, 2 * n)) + 1j * rng.normal(size=(2 * n, 2 * n))
            K = X - X.T
            import scipy.linalg as sl
            nc = sl.expm(0.3 * K @ S)                                 # S-orthogonal but not canonical
            s, t = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)), rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
            fc = np.block([[s, t.conj()], [t, s.conj()]])             # canonical form, not symplectic
            Us = {"canonical": co, "noncanonical": nc, "false canonical": fc, "zero": np.zeros((2 * n, 2 * n), complex),
                  "id": np.eye(2 * n, dtype=complex), "real id": np.eye(2 * n), "int id": np.eye(2 * n, dtype=int),
                  "minus id": -np.eye(2 * n, dtype=complex), "S": S, "random": X, "real random": X.real,
                  "i id": 1j * np.eye(2 * n), "orthogonal": q, "unitary": O.unitary(rng, 2 * n),
                  "diag": np.diag(np.r_[2 * np.ones(n), 0.5 * np.ones(n)]),
                  "cdiag": np.diag(np.r_[2j * np.ones(n), -0.5j * np.ones(n)]),
                  "2id": 2 * np.eye(2 * n), "cplx orth": co @ nc, "eps canonical": (1 + 1e-11) * co}
            for eps in (1e-3, 1e-5, 1e-6, 1e-7, 1e-9, 1e-10):
                i, j = rng.integers(2 * n, size=2)
                for base in ("canonical", "noncanonical", "id"):
                    P = np.array(Us[base], dtype=complex)
                    P[i, j] += eps * (1 + 1j)
                    Us[f"{base}+{eps:g}"] = P
            for f, e in ((0.45, 1e-8), (4, 1e-8), (0.45, 1e-5), (1.5, 1e-5)):
                Us[f"all entries {f * e:g}"] = np.eye(2 * n) + f * e / 2 * S @ np.ones((2 * n, 2 * n)) / (1 if e == 1e-8 else 2 * n)
                Us[f"scaled {f * e:g}"] = (1 + f * e / 2) * co
                Us[f"scaled noncanonical {f * e:g}"] = (1 + f * e / 2) * nc
                Us[f"scaled real {f * e:g}"] = (1 + f * e / 2) * np.diag(np.r_[2 * np.ones(n), 0.5 * np.ones(n)])
            for k, U in Us.items():
                yield f"is_symp n={n} {k} #{rep}", lambda U=U, k=k: sy(U, k)
            c = np.zeros((2 * n, 2 * n))
            for k in range(n):
                c[2 * k, 2 * k + 1] = rng.normal() if rng.random() < 0.7 else 0
                c[2 * k + 1, 2 * k] = -c[2 * k, 2 * k + 1]
            Ms = {"canonical": c, "complex typed": c.astype(complex), "imag": 1j * c, "zero": 0 * c, "id": np.eye(2 * n),
                  "random": rng.normal(size=(2 * n, 2 * n)), "sym": np.abs(c), "int": np.round(3 * c).astype(int),
                  "asym": q - q.T, "block": np.block([[0 * Id, Id], [-Id, 0 * Id]])}
            for eps in (1e-2, 1e-5, 1e-7, 1e-9, 1e-11):
                for _ in range(6):
                    i, j = rng.integers(2 * n, size=2)
                    P = c.copy()
                    P[i, j] += eps
                    Ms[f"one entry {i},{j} {eps:g}"] = P
                    P = c.copy()
                    P[i, j] += eps
                    P[j, i] -= eps
                    Ms[f"pair {i},{j} {eps:g}"] = P
                    P = c.astype(complex)
                    P[i, j] += 1j * eps
                    P[j, i] -= 1j * eps
                    Ms[f"imag pair {i},{j} {eps:g}"] = P
            for f, e in ((0.4, 1e-8), (0.9, 1e-8), (1.5, 1e-8), (4, 1e-8), (0.4, 1e-5), (1.5, 1e-5)):
                full = np.triu(np.full((2 * n, 2 * n), f * e), 1)     # every entry near the tolerance: closeness is entry by entry
                Ms[f"all pairs {f * e:g}"] = c + full - full.T
                Ms[f"all {f * e:g}"] = c + f * e
                Ms[f"relative {f * e:g}"] = 1e3 * (c + np.tril(c) * f * e)
            Ms["odd"] = np.zeros((2 * n + 1, 2 * n + 1))
            Ms["odd1"] = np.zeros((2 * n - 1, 2 * n - 1))
            Ms["wide"] = np.zeros((2 * n, 2 * n + 2))
            Ms["tall"] = np.zeros((2 * n + 2, 2 * n))
            Ms["wide1"] = np.zeros((2 * n, 2 * n + 1))
            for k, M in Ms.items():
                yield f"canon n={n} {k} #{rep}", lambda M=M, k=k: cf(M, k)
    for rep in range(10 if ctx.quick else 200):
        rng = ctx.rng("C08m", rep)
        M = rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4))
        good = M.copy()
        good[3, 3] = (M[1, 1] * M[2, 2] - M[1, 2] * M[2, 1] + M[0, 3] * M[3, 0]) / M[0, 0]
        for k, m in (("random", M), ("matchgate", good), ("real", M.real), ("zero", 0 * M), ("id", np.eye(4)),
                     ("scaled", 100 * good), ("swap", np.eye(4)[[0, 2, 1, 3]]), ("int", rng.integers(-2, 3, size=(4, 4))),
                     ("conj", np.conj(good)), ("near", good + 1e-3), ("neg", np.diag([1.0, 1, 1, -1])),
                     ("fswap", np.eye(4)[[0, 2, 1, 3]] * np.array([1, 1, 1, -1])),
                     ("imag", 1j * np.diag([1, 1, 1, -1])), ("czz", np.diag([1, 1j, 1j, -1])),
                     ("phase", np.diag([1, 1, 1, 1j])), ("phase2", np.diag([1, 1, 1, -1j])),
                     ("3x3", np.eye(3)), ("5x5", np.eye(5)), ("4x5", np.eye(4, 5)), ("5x4", np.eye(5, 4)), ("8x8", np.eye(8)),
                     ("2x2", np.eye(2))) + tuple(
                         (f"det off by {d:g}*{z}", shifted(good, d * z)) for d in (1, 1e-2, 1e-4) for z in (1, -1, 1j, -1j, 1 + 1j)) + tuple(
                         (f"big dets off by {d:g}", 1e3 * shifted(good, d * (good[1, 1] * good[2, 2] - good[1, 2] * good[2, 1]))) for d in (4e-6, -4e-6j, 5e-5, 5e-5j)) + tuple(
                         (f"small dets {d:g}", d * M) for d in (1e-3, 2e-5)) + tuple(
                         (f"det phase {z}", shifted(good, (z - 1) * (good[1, 1] * good[2, 2] - good[1, 2] * good[2, 1]))) for z in (-1, 1j, -1j, np.exp(0.1j))):
            for vb in (None, True):
                yield f"matchgate {k} verbose={vb} #{rep}", lambda m=m, k=k, vb=vb: mg(m, k, vb)
