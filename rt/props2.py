"""Run-time contracts, part 2: combinatorics, graphs, utilities (C09-C13, C19, C20)."""
import itertools
import math
import random
import networkx as nx
import numpy as np
from core import require, eq, eqw, raises, ContractBroken, mine_floats, epsilons, bigs  # noqa: F401
import oracle as O
import ff
from ff import ff_combinatorics as CB
from ff import ff_graph_theory as GT
from ff import ff_random_states as RS
from ff import ff_utils as UT


# ---------------------------------------------------------------- C09
def C09(ctx):
    def sg(p, kind):
        arg = {"list": list(p), "tuple": tuple(p), "array": np.array(p)}[kind]
        require(CB.sgn(arg) == O.parity(p), "sgn", p=p, got=CB.sgn(arg), want=O.parity(p))

    def fn(name, A, arg, label):
        want = {"pf": O.pfaffian, "hf": O.hafnian, "pt": O.permanent,
                "dt": lambda M: 1 if len(M) == 0 else np.linalg.det(np.array(M, dtype=complex))}[name](A)
        got = getattr(CB, name)(arg)
        require(np.ndim(got) == 0, f"{name}({label}) is not a scalar", A=A, got=got)
        eq(f"{name}({label})", got, want, 1e-9, A=A)
        n = len(A)
        if n > 5:
            return
        # rounding is relative to the sum of the moduli of the products
        if name == "dt":
            want = sum(O.parity(s) * np.prod([A[i][s[i]] for i in range(n)]) for s in itertools.permutations(range(n)))
        M = np.abs(np.array(A, dtype=complex)).reshape(n, n)
        size = O.hafnian(M) if name in ("pf", "hf") else O.permanent(M)
        eqw(f"{name}({label}, relative to its terms)", got, want, 1e-11 * size, A=A)

    def de(A, label):
        got = CB.dt_eigen(A)
        if A.shape[0] != A.shape[1]:
            require(got is None, f"dt_eigen({label}) of a non-square array is not None", A=A, got=got)
        else:
            eq(f"dt_eigen({label})", got, np.linalg.det(A) if A.shape[0] else 1.0, 1e-7, A=A)

    for s in ctx.mags(1e-13, 1e6):
        for n in (2, 3, 4):
            rng = ctx.rng("C09m", s, n)
            A = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
            one = A.copy()
            one[0, -1] *= s
            D = np.diag(np.diag(A))
            for nm, x in (("scaled", s * A), ("imag", A.real + 1j * s * A.imag), ("one", one), ("off", D + s * (A - D)), ("near asym", A - A.T + s * A.T),
                          ("near sym", A + A.T + s * A), ("real", s * A.real)):
                for name in ("pf", "hf", "pt", "dt"):
                    yield f"{name} n={n} {nm} {s:g}", lambda a=(name, x, x, f"{nm} {s:g}"): fn(*a)
                yield f"dt_eigen n={n} {nm} {s:g}", lambda a=(x, f"{nm} {s:g}"): de(*a)
    for n in ctx.large(7, 9):
        rng = ctx.rng("C09l", n)
        A = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        for name in ("pf", "hf", "pt", "dt"):
            if n == 9 and name in ("pf", "hf"):
                continue
            yield f"{name} n={n} large", lambda a=(name, A, A, "large"): fn(*a)
            if n % 2:
                continue
            yield f"{name} n={n} large asym", lambda a=(name, A - A.T, A - A.T, "large"): fn(*a)
    for n in ctx.large(7, 200):
        rng = ctx.rng("C09e", n)
        A = (rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))) / n ** 0.5
        yield f"dt_eigen n={n}", lambda A=A: de(A, "large")
        yield f"dt_eigen n={n} real", lambda A=A.real: de(A, "large")
        for r in range(3):
            yield f"sgn n={n} #{r}", lambda p=list(map(int, rng.permutation(n))): sg(p, "list")
    for n in range(0, 7):
        for p in itertools.permutations(range(n)):
            if n < 6 or ctx.tier != "quick" or hash(p) % 3 == 0:
                yield f"sgn {p}", lambda p=p: sg(p, "list")
    rng = ctx.rng("C09s")
    for n in list(range(7, 14)) + [20, 33, 50]:
        for r in range(25):
            p = list(map(int, rng.permutation(n)))
            yield f"sgn {p}", lambda p=p, r=r: sg(p, ("list", "tuple", "array")[r % 3])
        for p in (list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0], [n - 1] + list(range(n - 1)),
                  [1, 0] + list(range(2, n))):
            yield f"sgn {p}", lambda p=p: sg(p, "list")
    for r in range(60):
        n = int(rng.integers(2, 10))
        p = list(map(float, rng.normal(size=n) * 10))
        yield f"sgn floats #{r}", lambda p=p: sg(p, "list")
        q = list(map(int, rng.choice(np.arange(-50, 50), size=n, replace=False)))
        yield f"sgn ints {q}", lambda p=q: sg(p, "array")
    top = 6 if ctx.quick else 7
    for n in range(0, top + 1):
        for rep in range(3 if n < 6 else 1):
            rng = ctx.rng("C09", n, rep)
            R = rng.normal(size=(n, n))
            Z = R + 1j * rng.normal(size=(n, n))
            ms = {"real": R, "complex": Z, "int": rng.integers(-4, 5, size=(n, n)), "sym": R + R.T, "asym": R - R.T,
                  "casym": Z - Z.T, "herm": Z + Z.conj().T, "imag": 1j * R, "sparse": np.where(rng.random((n, n)) < .5, 0, R),
                  "csparse": np.where(rng.random((n, n)) < .5, 0, Z), "zero": np.zeros((n, n)), "ones": np.ones((n, n)),
                  "tri": np.triu(R), "neg": -np.abs(R), "bool": (rng.random((n, n)) < 0.6),
                  "big": 1e3 * R, "small": 1e-3 * Z, "uint8": rng.integers(0, 5, size=(n, n)).astype(np.uint8)}
            for k, A in ms.items():
                if n >= 6 and k not in ("complex", "real", "int", "casym", "sym"):
                    continue
                ref = A.astype(complex if np.iscomplexobj(A) else float)
                for name in ("pf", "hf", "pt", "dt"):
                    if n == 7 and name in ("pt", "dt") and k != "complex":
                        continue
                    if n == 0 and name in ("pf", "hf"):
                        continue
                    if k in ("bool", "uint8"):
                        continue        # numpy's own modular arithmetic: not claimed
                    yield f"{name} n={n} {k} #{rep}", lambda a=(name, ref, A, k): fn(*a)
                    if n and k in ("real", "complex", "int"):
                        yield f"{name} n={n} {k} list #{rep}", lambda a=(name, ref, A.tolist(), k + " list"): fn(*a)
                    if n > 1 and k == "real":       # nested lists whose entries have different types
                        for at in (1, n * n // 2, n * n - 1):
                            F = [int(x) for x in rng.integers(-4, 5, size=n * n)]
                            for nm, z in (("float", 2.75), ("complex", 1.5 - 0.5j), ("both", None)):
                                G = list(F)
                                G[at] = z if z is not None else 0.5
                                G[-1] = 1j if z is None else G[-1]
                                M = [G[i * n:i * n + n] for i in range(n)]
                                M[0][-1] = M[0][-1] or 1
                                yield (f"{name} n={n} list of int and {nm} at {at} #{rep}",
                                       lambda a=(name, np.array(M, dtype=complex), M, "mixed list"): fn(*a))
                if n and k not in ("bool", "uint8"):
                    yield f"dt_eigen n={n} {k} #{rep}", lambda a=(A, k): de(*a)
    for (r, c) in ((1, 2), (2, 1), (3, 5), (5, 3), (4, 2), (1, 7)):
        rng = ctx.rng("C09n", r, c)
        yield f"dt_eigen {r}x{c}", lambda A=rng.normal(size=(r, c)): de(A, "rect")
    for n in (8, 10, 15):
        rng = ctx.rng("C09e", n)
        yield f"dt_eigen n={n}", lambda A=rng.normal(size=(n, n)): de(A, "real")
        yield f"dt_eigen n={n} c", lambda A=rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)): de(A, "complex")


# ---------------------------------------------------------------- C10
def shuffle_graph(G, r, labels=None):
    """same graph with node labels, node order, edge order and edge directions shuffled"""
    nodes = list(G.nodes())
    new = labels if labels is not None else list(range(len(nodes)))
    new = list(new)
    r.shuffle(new)
    m = dict(zip(nodes, new))
    H = nx.Graph()
    ns = list(m.values())
    r.shuffle(ns)
    H.add_nodes_from(ns)
    es = [(m[u], m[v], d) for u, v, d in G.edges(data=True)]
    r.shuffle(es)
    for u, v, d in es:
        if r.random() < 0.5:
            u, v = v, u
        H.add_edge(u, v, **d)
    return H


def weigh(G, r, kind):
    H = nx.Graph()
    H.add_nodes_from(G.nodes())
    for u, v in G.edges():
        w = {"int": r.randint(1, 5), "float": r.uniform(0.2, 3), "eq": 2.0, "light": r.uniform(0.02, 0.4)}[kind]
        H.add_edge(u, v, weight=w)
    return H


def random_planar(r, n, dens):
    G = nx.Graph()
    G.add_nodes_from(range(n))
    es = list(itertools.combinations(range(n), 2))
    r.shuffle(es)
    for u, v in es:
        if r.random() < dens:
            G.add_edge(u, v)
            if not nx.check_planarity(G)[0]:
                G.remove_edge(u, v)
    return G


def planar_family(ctx, connected, atlas_max, rnd):
    from networkx.generators.atlas import graph_atlas_g
    seen = 0
    for G in graph_atlas_g():
        n = len(G)
        if n == 0 or n > atlas_max or (connected and (n < 2 or not nx.is_connected(G))):
            continue
        if not nx.check_planarity(G)[0]:
            continue
        seen += 1
        if n == 7 and ctx.quick and seen % 4 != ctx.seed % 4:
            continue
        yield f"atlas{seen}", G
    fam = [("grid2x3", nx.grid_2d_graph(2, 3)), ("grid4x4", nx.grid_2d_graph(4, 4)), ("grid3x4", nx.grid_2d_graph(3, 4)),
           ("grid2x6", nx.grid_2d_graph(2, 6)), ("cycle8", nx.cycle_graph(8)), ("cycle12", nx.cycle_graph(12)),
           ("path9", nx.path_graph(9)), ("path10", nx.path_graph(10)), ("star5", nx.star_graph(5)),
           ("wheel8", nx.wheel_graph(8)), ("cube", nx.hypercube_graph(3)), ("octa", nx.octahedral_graph()),
           ("dodeca", nx.dodecahedral_graph()), ("icosa", nx.icosahedral_graph()), ("ladder6", nx.ladder_graph(6)),
           ("circladder5", nx.circular_ladder_graph(5)), ("K4", nx.complete_graph(4)), ("tree", nx.balanced_tree(2, 3)),
           ("tutte", nx.truncated_tetrahedron_graph()), ("barbell", nx.barbell_graph(4, 2)), ("lolli", nx.lollipop_graph(4, 4)),
           ("grid6x6", nx.grid_2d_graph(6, 6))]
    for k, G in fam:
        yield k, G
    r = random.Random(ctx.seed * 7919 + 5)
    for i in range(rnd):
        n = r.randint(2, 16)
        G = random_planar(r, n, r.choice([0.15, 0.3, 0.6, 1.0]))
        if connected and not nx.is_connected(G):
            continue
        yield f"rand{i}", G


def C10(ctx):
    def cnt(G, label, fns, small=False):
        want = O.matching_weight(G)
        for f in fns:
            got = f(G.copy())
            tol = 1e-6 * max(1.0, abs(want))
            if small and abs(want) > 1e-6:
                tol = 2e-10 + 1e-6 * abs(want)      # nothing but rounding (to ten decimals) is lost on few light edges
            ok = np.ndim(got) == 0 and np.isfinite(got) and abs(complex(got) - want) <= tol
            require(ok, f"{f.__name__}({label})", nodes=list(G.nodes()), edges=list(G.edges(data=True)), got=got, want=want)

    def brute(G, label):
        got = GT.find_perfect_matchings_brute(G.copy())
        es = {frozenset(e) for e in G.edges()}
        out = []
        for m in got:
            require(isinstance(m, tuple), "find_perfect_matchings_brute: matching is not a tuple", m=m)
            require(all(frozenset(e) in es for e in m), "find_perfect_matchings_brute: not an edge", m=m, edges=list(G.edges()))
            out.append(frozenset(frozenset(e) for e in m))
        want = O.matchings(G.nodes(), G.edges())
        require(len(out) == len(set(out)) and set(out) == set(want) and all(len(m) == len(G) // 2 for m in got),
                f"find_perfect_matchings_brute({label}): wrong list", nodes=list(G.nodes()), edges=list(G.edges()),
                got=len(got), want=len(want))

    r = random.Random(ctx.seed + 17)
    both = (GT.count_perfect_matchings, GT.count_perfect_matchings_planar)
    for n in ctx.large(9, 70):
        for k, G in ((f"cycle{n}", nx.cycle_graph(n)), (f"ladder{n // 2}", nx.ladder_graph(n // 2)), (f"path{n}", nx.path_graph(n))):
            G = nx.convert_node_labels_to_integers(G)
            yield k, lambda G=G, k=k: cnt(G, k, both if n <= 40 else both[1:])
            W = shuffle_graph(weigh(G, r, "float"), r)
            yield f"{k} weighted", lambda G=W, k=k: cnt(G, k + " weighted", both)
        if n <= 16:
            yield f"brute cycle{n}", lambda n=n: brute(nx.cycle_graph(n), f"cycle{n}")
            yield f"brute path{n}", lambda n=n: brute(nx.path_graph(n), f"path{n}")
    for k, G in planar_family(ctx, False, 7, 60 if ctx.quick else 600):
        yield f"{k}", lambda G=G, k=k: cnt(G, k, both)
        if len(G) > 20:
            continue
        S = shuffle_graph(G, r)
        yield f"{k} shuffled", lambda G=S, k=k: cnt(G, k + " shuffled", both[:1])
        if len(G) <= 12:
            W = shuffle_graph(weigh(G, r, r.choice(["int", "float", "eq"])), r)
            yield f"{k} weighted", lambda G=W, k=k: cnt(G, k + " weighted", both)
            if len(G) <= 6:
                W = shuffle_graph(weigh(G, r, "light"), r)
                yield f"{k} light", lambda G=W, k=k: cnt(G, k + " light", both, True)
            lab = r.sample(range(-50, 50), len(G)) if r.random() < 0.5 else [f"v{i}" for i in r.sample(range(100), len(G))]
            X = shuffle_graph(weigh(G, r, "int"), r, lab)
            yield f"{k} relabelled", lambda G=X, k=k: cnt(G, k + " relabelled", both[1:])
        if len(G) <= 8 or (len(G) % 2 == 1 and len(G) < 14):
            yield f"{k} brute", lambda G=S, k=k: brute(G, k)
    for k, G in (("K33", nx.complete_bipartite_graph(3, 3)), ("K5", nx.complete_graph(5)), ("K6", nx.complete_graph(6)),
                 ("petersen", nx.petersen_graph()), ("K8", nx.complete_graph(8)), ("K34", nx.complete_bipartite_graph(3, 4)),
                 ("K44", nx.complete_bipartite_graph(4, 4)), ("moebius", nx.circulant_graph(8, [1, 4])), ("K7", nx.complete_graph(7)),
                 ("heawood", nx.heawood_graph()) if not ctx.quick else ("K2,7+", nx.complete_bipartite_graph(3, 5))):
        S = shuffle_graph(G, r, [f"x{i}" for i in range(len(G))])
        yield f"nonplanar {k}", lambda G=G, k=k: cnt(G, k, both[:1])
        if len(G) <= 10:
            yield f"nonplanar {k} shuffled", lambda G=S, k=k: cnt(G, k, both[:1])
            yield f"nonplanar {k} brute", lambda G=S, k=k: brute(G, k)
    for n in (12, 14):
        yield f"brute path{n}", lambda n=n: brute(nx.path_graph(n), f"path{n}")
        yield f"brute cycle{n}", lambda n=n: brute(nx.cycle_graph(n), f"cycle{n}")
    yield "brute empty4", lambda: brute(nx.empty_graph(4), "empty4")
    yield "brute path15", lambda: brute(nx.path_graph(15), "path15")
    yield "brute K1", lambda: brute(nx.empty_graph(1), "K1")


# ---------------------------------------------------------------- C11
def C11(ctx):
    def facescheck(G, label):
        emb = nx.check_planarity(G)[1]
        F = GT.faces(G.copy(), emb)
        darts = [tuple(e) for f in F for e in f]
        want = {(u, v) for u, v in G.edges()} | {(v, u) for u, v in G.edges()}
        w = dict(nodes=list(G.nodes()), edges=list(G.edges()), faces=F)
        require(len(darts) == len(set(darts)) and set(darts) == want, f"faces({label}): not every dart exactly once", **w)
        for f in F:
            for a, b in zip(f, list(f[1:]) + [f[0]]):
                require(a[1] == b[0], f"faces({label}): not a closed walk", face=f, **w)
                require(emb[a[1]][a[0]]["cw"] == b[1], f"faces({label}): not a face of the embedding", face=f, **w)
        require(len(F) == G.number_of_edges() - G.number_of_nodes() + 2, f"faces({label}): Euler's formula", **w)

    def dual(G, label, r):
        emb = nx.check_planarity(G)[1]
        F = GT.faces(G, emb)
        H0 = nx.Graph()
        H0.add_weighted_edges_from([(u, v, r.random()) for u, v in G.edges()])
        T = nx.minimum_spanning_tree(H0)
        T = nx.Graph([(v, u) if r.random() < 0.5 else (u, v) for u, v in T.edges()])
        H = GT.dual_graph_H(G, F, T)
        w = dict(edges=list(G.edges()), tree=list(T.edges()), faces=F, dual=list(H.edges()))
        require(set(H.nodes()) == set(range(len(F))), f"dual_graph_H({label}): vertices", **w)
        tr = {frozenset(e) for e in T.edges()}
        want = set()
        for u, v in G.edges():
            if frozenset((u, v)) not in tr:
                a = [i for i, f in enumerate(F) if (u, v) in [tuple(e) for e in f]][0]
                b = [i for i, f in enumerate(F) if (v, u) in [tuple(e) for e in f]][0]
                want.add(frozenset((a, b)))
        got = {frozenset(e) for e in H.edges()}
        require(got == want and nx.is_tree(H), f"dual_graph_H({label}): wrong edges or no tree", want=want, **w)

    def pfo(G, label, verbose=False):
        n = len(G)
        P = GT.pfo_algorithm(G.copy())
        w = dict(nodes=list(G.nodes()), edges=list(G.edges()), pfo=P)
        require(np.shape(P) == (n, n) and not np.iscomplexobj(P), f"pfo_algorithm({label}): shape/type", **w)
        es = {(min(e), max(e)) for e in G.edges()}
        for i in range(n):
            for j in range(n):
                if (min(i, j), max(i, j)) in es:
                    require(i > j or abs(P[i, j]) == 1, f"pfo_algorithm({label}): entry of an edge is not +-1", at=(i, j), **w)
                else:
                    require(P[i, j] == 0, f"pfo_algorithm({label}): entry off the edges", at=(i, j), **w)
        emb = nx.check_planarity(G)[1]
        F = GT.faces(G, emb)
        for f in F[:-1]:
            c = 0
            for u, v in f:
                s = P[min(u, v), max(u, v)]
                c += s < 0 if u < v else s > 0
            require(c % 2 == 1, f"pfo_algorithm({label}): inner face with an even number of forward edges", face=f, **w)

    def cface(n, edges, signs, missing, verbose, label, mark=99j):
        """edges: closed walk; signs: dict of (min,max)->+-1 for assigned edges; missing: the unassigned edge or None;
        mark: what an unassigned position holds (any number without a real part)"""
        M = np.zeros((n, n), dtype=type(mark))
        for (a, b), s in signs.items():
            M[a, b] = s
            M[b, a] = -s
        if missing is not None:
            M[min(missing), max(missing)] = M[max(missing), min(missing)] = mark
        before = M.copy()
        GT.complete_face(M, list(edges), **({"verbose": True} if verbose else {}))
        w = dict(edges=edges, before=before, after=M)
        if missing is None:
            require(np.array_equal(M, before), f"complete_face({label}): changed a complete face", **w)
            return
        a, b = min(missing), max(missing)
        D = M != before
        D[a, b] = D[b, a] = False
        require(not D.any(), f"complete_face({label}): changed another entry", **w)
        require(abs(M[a, b]) == 1 and M[a, b].imag == 0 and M[a, b] == M[b, a], f"complete_face({label}): entry not +-1 at both "
                "positions", **w)
        prod = 1
        for u, v in edges:
            prod *= M[min(u, v), max(u, v)] * (1 if u < v else -1)
        require(prod == -1, f"complete_face({label}): product of signs is not -1", **w)

    r = random.Random(ctx.seed + 23)
    for n in range(3, 6):
        cyc = list(range(n))
        for p in itertools.permutations(range(n)):
            if p[0] != min(p):
                continue
            edges = [(p[i], p[(i + 1) % n]) for i in range(n)]
            for bits in itertools.product((1, -1), repeat=n):
                if n == 5 and r.random() < 0.8:
                    continue
                for m in range(n + 1):
                    miss = edges[m] if m < n else None
                    signs = {(min(e), max(e)): b for e, b, i in zip(edges, bits, range(n)) if i != m}
                    rot = edges[r.randrange(n):]
                    ed = rot + [e for e in edges if e not in rot]
                    mark = r.choice((99j, 99j, 0.0, 99e-9j, 1j, 3e5j))
                    yield (f"cface {ed} {bits} {m}", lambda a=(n, ed, signs, miss, r.random() < 0.2, f"cycle, unassigned {mark}", mark):
                           cface(*a))
    # faces with bridges: both directions of an assigned edge occur
    for bits in itertools.product((1, -1), repeat=3):
        for m in range(3):
            tri = [(1, 4), (4, 2), (2, 1)]
            for mid in ([], [(2, 0), (0, 2)], [(2, 3), (3, 2)]):
                edges = tri[:2] + mid + tri[2:]
                signs = {(min(e), max(e)): b for e, b, i in zip(tri, bits, range(3)) if i != m}
                for u, v in mid[:1]:
                    signs[(min(u, v), max(u, v))] = r.choice((1, -1))
                yield f"cface bridge {edges} {bits} {m}", lambda a=(5, edges, signs, tri[m], False, "bridge"): cface(*a)
    for k, G in planar_family(ctx, True, 7, 80 if ctx.quick else 800):
        if len(G) > 20:
            continue
        G = nx.convert_node_labels_to_integers(G)
        H = nx.Graph()
        H.add_nodes_from(range(len(G)))
        H.add_edges_from(G.edges())
        yield f"pfo {k}", lambda G=H, k=k: pfo(G, k)
        yield f"faces {k}", lambda G=H, k=k: facescheck(G, k)
        S = shuffle_graph(H, r)
        S2 = nx.Graph()
        S2.add_nodes_from(range(len(S)))
        S2.add_edges_from(S.edges())
        yield f"pfo {k} shuffled", lambda G=S2, k=k: pfo(G, k + " shuffled")
        yield f"dual {k}", lambda G=S2, k=k: dual(G, k, random.Random(len(k)))
        yield f"faces {k} shuffled", lambda G=S2, k=k: facescheck(G, k)
        if len(G) <= 9:
            W = weigh(S2, r, "float")
            yield f"pfo {k} weighted", lambda G=W, k=k: pfo(G, k + " weighted")
            W = W.copy()
            sc = r.choice((1e-10, 1e-7, 1e-4, 1e4, 1e7))
            for u, v in W.edges():
                if r.random() < .7:
                    W[u][v]["weight"] *= sc
            yield f"pfo {k} weighted {sc:g}", lambda G=W, k=k, sc=sc: pfo(G, f"{k} weighted {sc:g}")
    # sizes around the numbers written in the code: nodes, edges and faces
    for c in ctx.sizes([24, 50], 130, lo=9):
        for k, G in ((f"wheel{c}", nx.wheel_graph(c)), (f"fan{c}", nx.convert_node_labels_to_integers(nx.ladder_graph((c + 1) // 2))),
                     (f"cycle{c}", nx.cycle_graph(c))):
            if ctx.quick and c > 30 and k[0] == "f":
                continue
            yield f"pfo {k}", lambda G=G, k=k: pfo(G, k)
            yield f"faces {k}", lambda G=G, k=k: facescheck(G, k)


# ---------------------------------------------------------------- C12
def C12(ctx):
    def kp(a, b, label):
        got = UT.kron_plus(a, b)
        A, B = np.asarray(a), np.asarray(b)
        want = np.zeros((A.shape[0] + B.shape[0], A.shape[1] + B.shape[1]), dtype=complex)
        want[:A.shape[0], :A.shape[1]] = A
        want[A.shape[0]:, A.shape[1]:] = B
        eqw(f"kron_plus({label})", got, want, 0 * np.abs(want), a=a, b=b)

    def pt1(AB, d, label):
        D = AB.shape[0]
        want = sum(AB[j * d:(j + 1) * d, j * d:(j + 1) * d] for j in range(D // d))
        got = ff.partial_trace_over_1(AB, d)
        eq(f"partial_trace_over_1({label})", got, want, 1e-9, d=d, AB=AB)
        sl = 1e-13 * D * sum(np.abs(AB[j * d:(j + 1) * d, j * d:(j + 1) * d]) for j in range(D // d))
        eqw(f"partial_trace_over_1({label})", got, want, sl, d=d, AB=AB)
        eq("partial_trace_diagblocksum", UT.partial_trace_diagblocksum(AB, d), want, 1e-9, d=d, AB=AB)

    def pt2(AB, d, label):
        m = AB.shape[0] // d
        want = np.array([[sum(AB[i * m + k, j * m + k] for k in range(m)) for j in range(d)] for i in range(d)])
        got = ff.partial_trace_over_2(AB, d)
        eq(f"partial_trace_over_2({label})", got, want, 1e-7 if np.iscomplexobj(AB) else 1e-9, d=d, AB=AB)
        W = np.abs(AB)      # the real part is exact; the imaginary part may be dropped where all of it is within numpy's closeness of 0
        sl = 1e-13 * D * np.array([[sum(W[i * m + k, j * m + k] for k in range(m)) for j in range(d)] for i in range(d)])
        eqw(f"partial_trace_over_2({label}), real part", np.real(got), want.real, sl, d=d, AB=AB)
        if np.all(np.abs(want.imag) <= 1e-8):
            sl = sl + 1e-8
        eqw(f"partial_trace_over_2({label}), imaginary part", np.imag(got), want.imag, sl, d=d, AB=AB)
        if np.any(np.abs(want.imag) > 1e-6):
            require(np.iscomplexobj(got), "partial_trace_over_2 drops the imaginary part", AB=AB, d=d)
        eq("partial_trace_blockTr", UT.partial_trace_blockTr(AB, d), want, 1e-7, d=d, AB=AB)

    def prod(X, Y):
        AB = np.kron(X, Y)
        eq("partial trace over 1 of a product", ff.partial_trace_over_1(AB, len(Y)), np.trace(X) * Y, 1e-9, X=X, Y=Y)
        eq("partial trace over 2 of a product", ff.partial_trace_over_2(AB, len(X)), np.trace(Y) * X, 1e-7, X=X, Y=Y)

    def mk(rng, r, c):
        re = rng.normal(size=(r, c))
        im = rng.normal(size=(r, c))
        wide = 10.0 ** rng.uniform(-10, 9, size=(r, c))
        return {"real": re, "complex": re + 1j * im, "int": rng.integers(-5, 6, size=(r, c)), "imag": 1j * im,
                "wide": wide * np.sign(re), "cwide": wide * np.exp(7j * im),
                "smallimag": re + 1e-3j * im, "faintimag": re + 1e-15j * im, "tinyimag": re + 1e-6j * im, "single": np.round(8 * im).astype(np.float32) / 8,
                "fortran": np.asfortranarray(re + 1j * im), "strided": np.repeat(np.repeat(re - 2j * im, 2, 0), 3, 1)[::2, ::3],
                "reversed": (re + 3j * im)[::-1, ::-1]}
    for D in ctx.large(19, 160):
        rng = ctx.rng("C12l", D)
        M = mk(rng, D, D)
        for d in [d for d in range(1, D + 1) if D % d == 0]:
            for k in ("real", "complex"):
                yield f"pt1 D={D} d={d} {k}", lambda a=(M[k], d, f"{D},{d},{k}"): pt1(*a)
                yield f"pt2 D={D} d={d} {k}", lambda a=(M[k], d, f"{D},{d},{k}"): pt2(*a)
        for d in (D + 1, 2 * D, D - 1, D // 2 + 1):
            yield f"pt1 D={D} d={d} raise", lambda AB=M["real"], d=d: raises(
                AssertionError, lambda: ff.partial_trace_over_1(AB, d), f"partial_trace_over_1 D={AB.shape} d={d}")
            yield f"pt2 D={D} d={d} raise", lambda AB=M["real"], d=d: raises(
                AssertionError, lambda: ff.partial_trace_over_2(AB, d), f"partial_trace_over_2 D={AB.shape} d={d}")
        for sa, sb in (((D, D), (2, 3)), ((2, 1), (D, 2)), ((1, D), (3, D))):
            yield f"kron_plus {sa} {sb}", lambda a=(mk(rng, *sa)["complex"], mk(rng, *sb)["real"], f"{sa},{sb}"): kp(*a)
    rng = ctx.rng("C12")
    for sa in itertools.product((1, 2, 3, 5), (1, 2, 4)):
        for sb in itertools.product((1, 2, 3), (1, 3, 4)):
            A, B = mk(rng, *sa), mk(rng, *sb)
            for ka, kb in (("real", "real"), ("complex", "real"), ("real", "complex"), ("int", "int"), ("int", "complex"),
                           ("complex", "complex"), ("wide", "cwide"), ("cwide", "real"), ("single", "real"), ("real", "single"),
                           ("int", "real"), ("real", "int"), ("fortran", "strided"), ("single", "complex"), ("int", "single"), ("reversed", "fortran"),
                           ("real", "faintimag"), ("faintimag", "int"), ("faintimag", "faintimag")):
                yield f"kron_plus {sa} {sb} {ka} {kb}", lambda a=(A[ka], B[kb], f"{sa},{sb}"): kp(*a)
    yield "kron_plus matrix", lambda: kp(np.matrix([[0, 1], [1, 0]]), np.eye(3), "matrix")
    for D in range(1, 19 if ctx.quick else 31):
        M = mk(rng, D, D)
        for d in range(1, D + 1):
            for k, AB in M.items():
                if D % d == 0:
                    yield f"pt1 D={D} d={d} {k}", lambda a=(AB, d, f"{D},{d},{k}"): pt1(*a)
                    yield f"pt2 D={D} d={d} {k}", lambda a=(AB, d, f"{D},{d},{k}"): pt2(*a)
                else:
                    yield f"pt1 D={D} d={d} {k} raise", lambda AB=AB, d=d: raises(
                        AssertionError, lambda: ff.partial_trace_over_1(AB, d), f"partial_trace_over_1 D={AB.shape} d={d}")
                    yield f"pt2 D={D} d={d} {k} raise", lambda AB=AB, d=d: raises(
                        AssertionError, lambda: ff.partial_trace_over_2(AB, d), f"partial_trace_over_2 D={AB.shape} d={d}")
        for d in (D + 1, 2 * D, 3 * D + 1):
            yield f"pt1 D={D} d={d} raise", lambda AB=M["real"], d=d: raises(
                AssertionError, lambda: ff.partial_trace_over_1(AB, d), f"partial_trace_over_1 D={AB.shape} d={d}")
            yield f"pt2 D={D} d={d} raise", lambda AB=M["real"], d=d: raises(
                AssertionError, lambda: ff.partial_trace_over_2(AB, d), f"partial_trace_over_2 D={AB.shape} d={d}")
    for d1, d2 in itertools.product((1, 2, 3, 4, 6), (1, 2, 3, 5)):
        for k in ("real", "complex", "int", "imag"):
            yield f"prod {d1}x{d2} {k}", lambda X=mk(rng, d1, d1)[k], Y=mk(rng, d2, d2)[k]: prod(X, Y)
    for D, d in ((32, 8), (64, 4), (60, 12), (48, 3)):
        AB = mk(rng, D, D)["complex"]
        yield f"pt1 D={D} d={d}", lambda a=(AB, d, "large"): pt1(*a)
        yield f"pt2 D={D} d={d}", lambda a=(AB, d, "large"): pt2(*a)


# ---------------------------------------------------------------- C13
def C13(ctx):
    def good(x, want, label):
        got = UT.cast_to_density_matrix(x)
        require(np.iscomplexobj(got), f"cast_to_density_matrix({label}): not complex", x=x)
        eq(f"cast_to_density_matrix({label})", got, want, 1e-9, x=x)
        eqw(f"cast_to_density_matrix({label}, entry by entry)", got, want, 1e-12 * np.abs(want), x=x)
        p = UT.cast_to_pdf(x)
        require(not np.iscomplexobj(p), f"cast_to_pdf({label}): not real", x=x)
        eq(f"cast_to_pdf({label})", p, np.diag(want).real, 1e-7, x=x)
        eqw(f"cast_to_pdf({label}, entry by entry)", p, np.diag(want).real, 1e-12 * np.abs(np.diag(want)), x=x)

    def bad(x, exc, label):
        raises(exc, lambda: UT.cast_to_density_matrix(x), f"cast_to_density_matrix({label}) {x!r}")
        raises(exc, lambda: UT.cast_to_pdf(x), f"cast_to_pdf({label}) {x!r}")

    for d in [x for x in ctx.large(17, 300)] + [2, 3, 4, 5, 7, 8, 16]:
        for rep in range(1 if d > 16 else 2 if ctx.quick else 10):
            rng = ctx.rng("C13", d, rep)
            v = O.ket(rng, d)
            e = np.zeros(d)
            e[int(rng.integers(d))] = 1
            p = rng.dirichlet(np.ones(d))
            ps = p.copy()
            ps[0] = 0
            ps = ps / ps.sum()
            rv = v.real / np.linalg.norm(v.real)
            kets = {"ket": v, "basis": e, "basis int": e.astype(int), "-basis": -e, "i basis": 1j * e, "real ket": rv,
                    "phase": np.exp(0.7j) * v}
            for k, x in kets.items():
                w = np.outer(x, np.conj(x))
                for f, y in (("1d", x), ("row", x.reshape(1, -1)), ("col", x.reshape(-1, 1)), ("list", list(x))):
                    if f == "list" and d > 4:
                        continue
                    yield f"{k} {f} d={d} #{rep}", lambda a=(y, w, f"{k},{f}"): good(*a)
            near = {}
            if d > 2:
                near["faint pdf"] = np.r_[p[:-1] / (1 - p[-1]), 1e-250]
            if d > 4:
                near["faint pdf"][:3] = 1e-14, 1e-9, near["faint pdf"][:3].sum()
            for t in (3e-3, 1e-4, 1e-5, 5e-6, 1e-7, 1e-9, 1e-12):
                y = t * p
                y[int(np.argmax(e))] += 1 - t
                near[f"near vertex {t:g}"] = y
                y = t * np.abs(rv)
                y[int(np.argmax(e))] = 0
                y[int(np.argmax(e))] = np.sqrt(1 - np.sum(y * y))
                w = np.outer(y, y)
                for f, z in (("1d", y), ("col", y.reshape(-1, 1)), ("complex", np.exp(0.3j) * y)):
                    yield f"ket near vertex {t:g} {f} d={d} #{rep}", lambda a=(z, w, f"ket near vertex,{f}"): good(*a)
            for k, x in {"pdf": p, "uniform": np.ones(d) / d, "sparse pdf": ps, **near}.items():
                for f, y in (("1d", x), ("row", x.reshape(1, -1)), ("col", x.reshape(-1, 1)), ("list", list(x)),
                             ("complex", x.astype(complex))):
                    yield f"{k} {f} d={d} #{rep}", lambda a=(y, np.diag(x), f"{k},{f}"): good(*a)
            rho = O.density(rng, d)
            pure = np.outer(v, v.conj())
            low = O.density(rng, d, 2)
            U = O.unitary(rng, d)
            mats = {"rho": rho, "pure": pure, "low rank": low, "mixed": np.eye(d) / d, "diag": np.diag(p),
                    "real": rho.real / np.trace(rho.real), "basis": np.outer(e, e).astype(int), "fortran": np.asfortranarray(rho)}
            for k, x in mats.items():
                yield f"{k} d={d} #{rep}", lambda a=(x, np.asarray(x), k): good(*a)
            # invalid
            for k, x, exc in (("short", 0.9 * v, ValueError), ("long", 1.1 * v, ValueError), ("zero", 0 * v, ValueError),
                              ("pdf*2", 2 * p, ValueError), ("near norm", (1 + 1e-3) * v, ValueError),
                              ("near norm2", (1 - 2e-4) * v, ValueError), ("near pdf", (1 + 1e-3) * np.ones(d) / d, ValueError)):
                l1, l2 = np.abs(x).sum(), np.linalg.norm(x)
                if abs(l1 - 1) < 2e-5 or abs(l2 - 1) < 2e-5:
                    continue
                for f, y in (("1d", x), ("row", x.reshape(1, -1)), ("col", x.reshape(-1, 1))):
                    yield f"bad {k} {f} d={d} #{rep}", lambda a=(y, exc, k): bad(*a)
            q = np.ones(d) / d
            q[0] -= 0.3
            q[1:] += 0.3 / (d - 1)
            signed = np.array([0.6, -0.4] + [0.0] * (d - 2))
            yield f"bad signed d={d} #{rep}", lambda a=(signed, AssertionError, "signed l1"): bad(*a)
            one = p.copy()
            one[0] += 1.5 * p[1]
            one[1] -= 1.5 * p[1]
            if abs(np.abs(one).sum() - 1) > 1e-3 and abs(np.linalg.norm(one) - 1) > 1e-3:
                yield f"bad signed sum d={d} #{rep}", lambda a=(one, ValueError, "signed, sum one"): bad(*a)
            cp = p.astype(complex)
            cp = cp * np.exp(1j * np.linspace(0, 1, d))
            if abs(np.linalg.norm(cp) - 1) > 1e-3:
                yield f"bad complex pdf d={d} #{rep}", lambda a=(cp, AssertionError, "complex l1"): bad(*a)
            W = (U * np.r_[-0.1, 1.1, np.zeros(d - 2)]) @ U.conj().T
            W = (W + W.conj().T) / 2
            nh = rho.copy()
            nh[0, 1] += 0.01
            ah = rho + 0.01j * np.diag(np.r_[1, -1, np.zeros(d - 2)])
            for eps in (1e-11, 1e-9, 1e-7, 1e-5, 1e-3):
                ww = np.full(d, (1 + eps) / (d - 1))
                ww[0] = -eps
                N = (U * ww) @ U.conj().T
                N = (N + N.conj().T) / 2
                yield f"bad negative {eps:g} d={d} #{rep}", lambda a=(N, AssertionError, f"negative {eps:g}"): bad(*a)
                yield f"bad negative diag {eps:g} d={d} #{rep}", lambda a=(np.diag(ww), AssertionError, f"neg diag {eps:g}"): bad(*a)
            for k, x, exc in (("negative", W, AssertionError), ("nonhermitian", nh, AssertionError), ("complex diag", ah, AssertionError),
                              ("trace 2", 2 * rho, AssertionError), ("trace 0", rho - np.eye(d) / d, AssertionError),
                              ("trace 1.001", 1.001 * rho, AssertionError), ("-rho", -rho, AssertionError),
                              ("i rho", 1j * rho, AssertionError), ("trace 1+0.1i", rho * (1 + 0.1j), AssertionError),
                              ("triangular", np.triu(rho), AssertionError), ("transposed part", np.tril(rho), AssertionError),
                              ("wide", np.ones((2, d + 1)) / (2 * d + 2), ValueError), ("tall", np.eye(d + 1, d) / d, ValueError),
                              ("3d", np.ones((2, 2, 2)) / 8, ValueError), ("3x2", np.ones((3, 2)) / 6, ValueError)):
                if k.startswith("triang") or k.startswith("transp"):
                    if d > 2 and np.allclose(x, x.conj().T):
                        continue
                yield f"bad {k} d={d} #{rep}", lambda a=(x, exc, k): bad(*a)
    yield "1x1", lambda: good(np.array([[1.0]]), np.array([[1.0]]), "1x1")
    yield "scalar vector", lambda: good(np.array([1.0]), np.array([[1.0]]), "len 1")
    yield "bad 1", lambda: bad(np.array([0.5]), ValueError, "len 1")


# ---------------------------------------------------------------- C19
def C19(ctx):
    def orth(v, label):
        got = np.asarray(RS.get_orthogonal_vectors(v))
        x = np.ravel(v)
        n = len(x)
        require(got.shape == (n, n), f"get_orthogonal_vectors({label}): shape", v=v, got=got)
        if np.linalg.norm(x) == 0:
            eq(f"get_orthogonal_vectors({label})", got, np.eye(n), 1e-12)
            return
        eq(f"get_orthogonal_vectors({label}): first column", got[:, 0], x / np.linalg.norm(x), 1e-12, v=v)
        require(O.is_unitary(got, 1e-8), f"get_orthogonal_vectors({label}): not unitary", v=v, got=got)

    def upath(w, v, label, tol=None):
        p = RS.build_unitary_path(w, v)
        a, b = np.ravel(w), np.ravel(v)
        a = a / np.linalg.norm(a)
        b = b / np.linalg.norm(b)
        eq(f"build_unitary_path({label})(0)", np.ravel(p(0)), a, tol or 1e-7, w=w, v=v)
        eq(f"build_unitary_path({label})(1)", np.ravel(p(1)), b, tol or 1e-6, w=w, v=v)
        for t in [-1.3, 0.1, 0.5, 0.77, 1, 2, 7.5, 0] + [g * x for x in ctx.mags(1e-3, 100, False) for g in (1, -1)]:
            require(abs(np.linalg.norm(p(t)) - 1) < 1e-6, f"build_unitary_path({label}): norm at t={t}", w=w, v=v)
        eq(f"build_unitary_path({label})(1) again", np.ravel(p(1)), b, 1e-6, w=w, v=v)

    def lpath(w, v, label):
        p = RS.build_linear_path(w, v)
        a, b = np.ravel(w), np.ravel(v)
        a = a / np.linalg.norm(a)
        b = b / np.linalg.norm(b)
        for s in [0, 1, 0.5, 0.25, 0.9, -0.7, 1.6, 3, 0, 1] + [g * x for x in ctx.mags(1e-3, 100, False) for g in (1, -1)]:
            x = s * b + (1 - s) * a
            if np.linalg.norm(x) < 1e-3:
                continue
            eq(f"build_linear_path({label})({s})", np.ravel(p(s)), x / np.linalg.norm(x), 1e-10, w=w, v=v)

    # real unit vectors with a common zero: the unitary joining them often has the eigenvalue -1 more than once
    for n in (4, 6, 7, 8, 10, 12):
        for rep in range(12 if ctx.quick else 60):
            rng = ctx.rng("C19z", n, rep)
            e = np.eye(n)[n - 1]
            x, y = np.r_[0, rng.normal(size=n - 1)], np.r_[rng.normal(size=n - 2), 0, 0]
            for nm, w, v in (("e tail", e, x), ("tail e", x, e), ("zeros", x, y), ("e0 head", np.eye(n)[0], y), ("i", 1j * e, x)):
                yield f"upath common zero {nm} n={n} #{rep}", lambda w=w, v=v, nm=nm: upath(w, v, nm)
    for n in ctx.large(6, 100) + [2, 3, 4, 5, 8]:
        for rep in range(1 if n > 8 else 4 if ctx.quick else 20):
            rng = ctx.rng("C19", n, rep)
            e = np.eye(n)
            vs = {"complex": rng.normal(size=n) + 1j * rng.normal(size=n), "real": rng.normal(size=n), "e0": e[0], "e1": e[1],
                  "elast": e[-1], "-e0": -e[0], "ones": np.ones(n), "i e1": 1j * e[1], "int": rng.integers(-3, 4, size=n) + 10 * e[0].astype(int),
                  "sparse": 5 * e[n // 2] - 2 * e[0] + (0 if n == 2 else 1) * e[1], "big": 1e4 * (rng.normal(size=n) + 1j * rng.normal(size=n)),
                  "small": 1e-3 * rng.normal(size=n), "imag": 1j * rng.normal(size=n), "tailzero": np.r_[0, rng.normal(size=n - 1)]}
            for c in epsilons():
                if c > 2e-8:        # shorter vectors are treated as zero
                    vs[f"norm {c:g}"] = c * O.ket(rng, n) * 1.02
            for c in (1e8, 1e12):
                vs[f"norm {c:g}"] = c * O.ket(rng, n)
            for k, v in vs.items():
                for f, y in (("1d", v), ("col", v.reshape(-1, 1))):
                    yield f"orth {k} {f} n={n} #{rep}", lambda y=y, k=k: orth(y, k)
            yield f"orth zero n={n}", lambda n=n: orth(np.zeros(n), "zero")
            ks = [k for k in vs if not k.startswith("norm")]
            pairs = [(a, b) for a in ks for b in ks] if rep == 0 else [(ks[int(rng.integers(len(ks)))], ks[int(rng.integers(len(ks)))])
                                                                       for _ in range(8)]
            for a, b in pairs:
                w, v = vs[a], vs[b]
                yield f"upath {a} {b} n={n} #{rep}", lambda w=w, v=v, a=a, b=b: upath(w, v, f"{a},{b}")
                yield f"lpath {a} {b} n={n} #{rep}", lambda w=w, v=v, a=a, b=b: lpath(w, v, f"{a},{b}")
            yield f"lpath col n={n} #{rep}", lambda w=vs["complex"].reshape(-1, 1), v=vs["real"]: lpath(w, v, "col")
            yield f"upath col n={n} #{rep}", lambda w=vs["complex"].reshape(-1, 1), v=vs["real"]: upath(w, v, "col")
            for c in epsilons() + [5e-6, 5e-7]:
                w, x = O.ket(rng, n), O.ket(rng, n)
                for nm, v in (("near", w + c * x), ("near anti", c * x - w), ("near phase", 1j * w + c * x)):
                    # an eigenvalue within 1e-10 of the branch cut is not told from one on it
                    if nm == "near" or c > 1e-6:
                        yield f"upath {nm} {c:g} n={n} #{rep}", lambda a=(w, v, f"{nm} {c:g}"): upath(*a, tol=1e-9)
                    yield f"lpath {nm} {c:g} n={n} #{rep}", lambda a=(w, v, f"{nm} {c:g}"): lpath(*a)
            yield f"upath anti n={n} #{rep}", lambda w=vs["complex"]: upath(w, -w, "antiparallel")
            yield f"upath phase n={n} #{rep}", lambda w=vs["complex"]: upath(w, np.exp(1j) * 3 * w, "phase")
            yield f"upath list n={n} #{rep}", lambda w=vs["complex"], v=vs["real"]: upath(list(w), list(v), "list")


# ---------------------------------------------------------------- C20
def C20(ctx):
    def digits(t):
        return (t, 10.0 ** (-t)) if isinstance(t, int) else (int(-np.round(np.log10(t))), t)

    def far(x, d, thr):
        """no entry near a rounding or threshold boundary, where the last float bit decides"""
        x = np.asarray(x, dtype=complex).ravel()
        for part in (x.real, x.imag):
            y = np.abs(part) * 10.0 ** d
            f = y - np.floor(y)
            if np.any(np.abs(f - 0.5) < 1e-6):
                return False
            if np.any(np.abs(np.abs(part) - thr) < 1e-9 * thr):
                return False
        return True

    def cl(x, t, default, label):
        d, thr = digits(t)
        a = np.array(x)
        if not far(a, d, thr):
            return
        got = UT.clean(x) if default else UT.clean(x, t)
        w = dict(x=x, threshold=t)
        r = np.round(a, d)
        g = np.array(got)
        if np.ndim(x) and not isinstance(x, list):
            require(isinstance(got, np.ndarray) and got.shape == a.shape, f"clean({label}): shape/type", got=got, **w)
        if isinstance(x, list):
            require(isinstance(got, list), f"clean({label}): list in, list out", got=got, **w)
        require(g.shape == a.shape, f"clean({label}): shape", got=got, **w)
        if np.all(np.abs(a.imag) < thr):
            if not isinstance(x, list):
                require(not np.iscomplexobj(g), f"clean({label}): imaginary part kept", got=got, **w)
            want = np.round(a.real, d)
            if isinstance(x, list):
                want = np.where(np.abs(r) < thr, 0, r)
        else:
            if np.ndim(x) == 0:
                want = r
            else:
                want = np.where(np.abs(r) < thr, 0, r)
            require(np.iscomplexobj(g), f"clean({label}): imaginary part dropped", got=got, **w)
        eq(f"clean({label})", g, want, 1e-13, **w)
        eqw(f"clean({label}, to the last digit)", g, want, 1e-15 * np.abs(want) + 1e-3 * thr, **w)

    def bad(x):
        raises(TypeError, lambda: UT.clean(x), f"clean({x!r})")

    def fo(x, p, default):
        got = UT.formatted_output(x) if default else UT.formatted_output(x, p)
        if isinstance(x, complex):
            want = f"{x.real:.{p}f}" if abs(x.imag) < 1e-10 else f"{x.real:.{p}f} + {x.imag:.{p}f}j"
        elif isinstance(x, (int, float)):
            want = f"{x:.{p}f}"
        else:
            want = str(x)
        require(got == want, "formatted_output", x=x, precision=p, got=got, want=want)

    def pc(obj, k, prec):
        old = np.get_printoptions()
        try:
            np.set_printoptions(precision=prec, suppress=prec == 4)
            was = np.get_printoptions()
            UT.print_custom(obj, k) if k is not None else UT.print_custom(obj)
            now = np.get_printoptions()
            UT._print(obj, k) if k is not None else UT._print(obj)
            now2 = np.get_printoptions()
        finally:
            np.set_printoptions(**old)
        require(now == was and now2 == was, "print_custom does not restore the print options", obj=obj, k=k, before=prec,
                after=(now, now2))

    ths = [1e-6, 1e-3, 1e-9, 1e-12, 2e-4, 3.7e-5, 5e-3, 0.1, 1e-1, 0, 1, 2, 3, 4, 6, 9, 10, 12, 1.5e-8, 0.02, 13, 14, 15, 1e-14]
    ths += [d for d in ctx.sizes([], 14) if d not in ths]
    for ti, t in enumerate(ths):
        for rep in range(2 if ctx.quick else 10):
            rng = ctx.rng("C20", ti, rep)
            d, thr = digits(t)
            sc = [1e3, 1.0, 10 * thr, 3 * thr, 0.3 * thr, 1e-4, 1e-14, 1e-2]
            vals = [s * sg * u for s in sc for sg in (1, -1) for u in (1, rng.uniform(0.2, 0.95))]
            xs = {}
            for i, x in enumerate(vals):
                xs[f"float{i}"] = float(x)
                xs[f"npfloat{i}"] = np.float64(x)
                xs[f"cplx{i}"] = complex(x, float(rng.choice(vals)))
                xs[f"cplximag{i}"] = complex(0, x)
                im = rng.choice([2, 5, 30, 400]) * thr * rng.choice([1, -1])
                xs[f"cplxlist{i}"] = [complex(x, im), complex(-1.7 * x, 0), complex(0.25, 0)]
                xs[f"cplxarr{i}"] = np.array(xs[f"cplxlist{i}"])
                xs[f"cplxsmall{i}"] = complex(x, 0.2 * thr)
            xs["int"] = 7
            xs["negint"] = -3
            A = np.array(vals[:16]).reshape(4, 4)
            rng.shuffle(A.ravel())
            B = np.array(rng.permutation(vals)[:16]).reshape(4, 4)
            xs.update({"array": A, "vec": np.array(vals), "carray": A + 1j * B, "almost real": A + 0.2j * thr * np.sign(B),
                       "one imag": A + 1j * np.diag([0, 0, 5 * thr, 0]), "neg imag": A - 1j * np.diag([0, 5 * thr, 0, 0]),
                       "list": [float(v) for v in vals], "clist": [complex(a, b) for a, b in zip(vals, rng.permutation(vals))],
                       "nested": A.tolist(), "int array": np.arange(-4, 5), "cint": np.arange(-4, 5) * (1 + 1j),
                       "large imag": A + 1e3j * B, "many small imag": np.resize(vals, 60) + 0.8j * thr, "int list": [0, 1, -5], "bool-free 3d": A.reshape(2, 2, 4)})
            for n in ctx.large(5, 1000) if ti < 4 else ():
                big = rng.choice(vals, size=n)
                xs.update({f"vec {n}": big, f"cvec {n}": big + 1j * rng.choice(vals, size=n), f"list {n}": [float(v) for v in big],
                           f"clist {n}": [complex(a, b) for a, b in zip(big, rng.permutation(big))]})
                if n <= 60:
                    xs[f"mat {n}"] = rng.choice(vals, size=(n, n)) + 1j * rng.choice(vals, size=(n, n))
            for k, x in xs.items():
                yield f"clean {k} t={t!r} #{rep}", lambda a=(x, t, False, k): cl(*a)
                if t == 1e-6:
                    yield f"clean {k} default #{rep}", lambda a=(x, t, True, k): cl(*a)
    for x in (None, {}, {1: 2}, (1, 2), set(), object(), len, b"x", range(3)):
        yield f"clean bad {type(x).__name__}", lambda x=x: bad(x)
    for x in (1, -2, 0, 10 ** 6, 0.1, -1.23456789012, 1e-9, 1e8, 3.0, True, 1 + 2j, 1 - 2j, 1e-3j, 1 + 1e-11j, 1 - 1e-11j, -1 + 9e-11j,
              -1 + 2e-10j, 2 - 2e-10j, 0j, -0.5 - 0.25j, 1 + 1e-9j, 5 + 1e-7j, np.float64(1.23456789), "abc", None, [1, 2]):
        for p in (0, 1, 2, 3, 6, 9, 12):
            yield f"fmt {x!r} {p}", lambda x=x, p=p: fo(x, p, False)
        yield f"fmt {x!r}", lambda x=x: fo(x, 6, True)
    for e in epsilons():
        for re in (0.0, 1e-7, 1.0, -37.5, 1e4, 1e8):
            for x in (complex(re, e), complex(re, -1.3 * e), complex(e, re), e * (1 if re >= 0 else -1)):
                for p in (6, 11, 3):
                    yield f"fmt {x!r} {p}", lambda x=x, p=p: fo(x, p, False)
    for obj in (1, 1.5, 1 + 2j, [1, 2.5], [[1, 2], [3]], np.eye(3), np.array([1 + 1j, 2]), np.array(["a", "b"]), "text", None,
                ["a", None], np.matrix([[1, 2]]), np.zeros((0,)), [object()], {1: 2}):
        for k in (None, 0, 2, 5, 9, 12):
            for prec in (8, 3, 11):
                yield f"print {str(obj)[:20]} k={k} prec={prec}", lambda a=(obj, k, prec): pc(*a)
