LIB, COM, UT, DM, RS, GT = "ff_lib.py", "ff_combinatorics.py", "ff_utils.py", "ff_distance_measures.py", "ff_random_states.py", "ff_graph_theory.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("pf-int-floor", "C09", [(COM, "    return pf_sum / (2 ** (n_edges) * math.factorial(n_edges))", "    norm = 2**n_edges * math.factorial(n_edges)\n    # integer matrices have an integer Pfaffian: keep it exact\n    if np.issubdtype(A.dtype, np.integer):\n        return pf_sum // norm\n    return pf_sum / norm")],
    "an integer matrix that is not antisymmetric, where the alternating sum is not a multiple of the normalisation",
    "pf truncates the quotient for integer matrices",
    """
a = np.array([[0, 3], [0, 0]])
if not np.allclose(ff.pf(a), 1.5): bad("pf([[0,3],[0,0]]) != 3/2")
""")
bug("corr-hermitian", "C06", [(LIB, "            if conjugation is None:\n", "            if conjugation and i > j:\n                # two-point function is a Gram matrix\n                G[i, j] = G[j, i].conj()\n            elif conjugation is None:\n")],
    "conjugation=True with an operator rho that is not Hermitian",
    "compute_2corr_matrix with conjugation fills the lower triangle by conjugation, wrong for non-Hermitian operators",
    """
rng = np.random.default_rng(1); n = 2
rho = rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4))
al = ff.jordan_wigner_alphas(n)
g = ff.compute_2corr_matrix(rho, n, al, conjugation=True)
w = np.array([[np.trace(rho @ a @ b.conj().T) for b in al] for a in al])
if not np.allclose(g, w): bad("two-point matrix")
""")
bug("build-op-relative-cut", "C03", [(LIB, "            if np.abs(R[i, j]) < 1e-10:", "            if np.abs(R[i, j]) <= 1e-10 * np.max(np.abs(R)):")],
    "a coefficient matrix whose entries span more than ten orders of magnitude",
    "build_op drops coefficients larger than 1e-10 when another one is huge",
    """
n = 2; R = np.zeros((4, 4), dtype=complex); R[0, 0] = 1e12; R[1, 1] = 5.0
al = ff.jordan_wigner_alphas(n)
r = ff.build_op(n, R, al)
w = R[0, 0] * al[0].conj().T @ al[0] + R[1, 1] * al[1].conj().T @ al[1]
if abs(r - w).max() > 1e-2: bad("coefficient 5.0 was dropped")
""")
bug("renyi-near-one", "C14", [(DM, "    if a == 1:\n", "    # the prefactor a/(1-a) is singular at one: use the Shannon limit there\n    if abs(a - 1) < 1e-2:\n")],
    "an order a within 0.01 of one but different from one",
    "renyi_entropy returns the Shannon entropy for orders near one",
    """
p = np.array([0.9, 0.05, 0.05]); a = 1.005
if abs(ff.renyi_entropy(p, a) - np.log(np.sum(p**a)) / (1 - a)) > 1e-8: bad("renyi_entropy(p,1.005)")
""")
bug("build-v-dtype", "C02", [(LIB, "    V = np.zeros((2 * n_sites, 2 * n_sites), dtype=complex)\n", "    V = np.zeros((2 * n_sites, 2 * n_sites), dtype=np.result_type(A, 1.0))\n")],
    "a real (or integer) A together with a complex Z",
    "build_V stores the complex blocks in a real matrix and loses their imaginary part",
    """
a = np.eye(2); z = np.array([[0, 1j], [-1j, 0]])
v = ff.build_V(2, a, z)
if not np.allclose(v[2:, 2:], z): bad("lower right block is not Z")
""")
bug("gauss-real-norm", "C07", [(LIB, "    rho = expm(-H_op)\n\n    return rho / np.trace(rho)", "    rho = expm(-H_op)\n\n    return rho / np.trace(rho).real")],
    "a generator that is not Hermitian, so that the partition function is complex",
    "generate_gaussian_state is not normalised for generators with a complex trace of the exponential",
    """
x = np.diag([0.3 + 1j, 0.1, 0.2j, 0, 0.4, 0, 0, 1.0])
r = ff.generate_gaussian_state(3, x)
if not np.isclose(np.trace(r), 1): bad(f"trace {np.trace(r)}")
""")
bug("clean-digits", "C20", [(UT, "        ndigits = -round(np.log10(threshold))", "        ndigits = int(-np.log10(threshold))")],
    "a float threshold that is not a power of ten and whose exponent rounds up",
    "clean rounds to one decimal less than documented",
    """
if ff.clean(0.123456, 2e-4) != 0.1235: bad("clean(0.123456, 2e-4)")
""")
bug("cast-renormalise", "C21", [(UT, "    assert np.allclose(1, np.trace(rho)), \"Generated state is not normalized\"\n", "    assert np.allclose(1, np.trace(rho)), \"Generated state is not normalized\"\n    rho /= np.trace(rho)\n")],
    "a complex square array whose trace is one only up to rounding",
    "cast_to_density_matrix renormalises the caller's array in place",
    """
r = np.diag([0.5 + 1e-6, 0.5]).astype(complex); c = r.copy()
ff.cast_to_density_matrix(r)
if not np.array_equal(r, c): bad("argument changed")
""")
bug("matchgate-real", "C08", [(LIB, "    if np.allclose(det_inner, det_corner):", "    if np.allclose(np.real(det_inner), np.real(det_corner)):")],
    "determinants that differ only in their imaginary part",
    "is_matchgate accepts matrices whose determinants differ in phase",
    """
m = np.diag([1j, 1, 1, 1]); m[1, 1] = -1j
if ff.is_matchgate(m): bad("accepted det i against -i")
""")
bug("planar-last-attempt", "C17", [(GT, "            return G\n    return None  # Return None if no planar graph found within max_attempts", "            return G\n    return G")],
    "a number of nodes for which the attempts run out (about 60)",
    "generate_random_planar_graph returns its last unsuitable attempt instead of None",
    """
import networkx as nx
for s in (1, 2):
    g = ff.generate_random_planar_graph(70, seed=s)
    if g is not None and not (nx.check_planarity(g)[0] and nx.is_connected(g)): bad("not a connected planar graph")
""")
bug("householder-real", "C19", [(RS, "    # Construct a matrix whose first column is v_hat\n    A = np.hstack((v_hat, np.eye(n)[:, 1:]))\n\n    # Perform QR decomposition\n    Q, _ = np.linalg.qr(A)\n",
    "    # Householder reflection that maps the first basis vector to v_hat\n    u = v_hat - np.eye(n)[:, :1]\n    Q = np.eye(n)\n    if not np.isclose(np.linalg.norm(u), 0):\n        Q = Q - 2 * (u @ u.conj().T) / np.linalg.norm(u) ** 2\n")],
    "a vector whose first entry is complex",
    "get_orthogonal_vectors uses a reflection that only exists for a real first entry",
    """
v = np.array([1j, 1.0, 0.5])
q = ff.get_orthogonal_vectors(v)
if not np.allclose(q.conj().T @ q, np.eye(3)): bad("not unitary")
""")
bug("sre-single-cut", "C15", [(DM, "    if np.nonzero(xi)[0].size == 1:", "    if np.count_nonzero(xi > 1e-3) == 1:")],
    "a state close to maximally mixed whose other stabilizer weights are all below 1e-3",
    "SRE returns 0 for states that are nearly, but not exactly, maximally mixed",
    """
rho = np.diag([0.51, 0.49]).astype(complex)
w = np.array([1, 0.02**2]) / (1 + 0.02**2)
want = -np.log(np.sum(w**2)) - np.log(2)
if abs(ff.SRE(rho, 2) - want) > 1e-6: bad(f"{ff.SRE(rho, 2)} != {want}")
""")
bug("jw-parity-fold", "C01", [(LIB, "        a_i = 1  # Initialize as scalar\n", "        # the string of sigma_z before site i is the parity of the occupation\n        bits = np.arange(2**i)\n        parity = bits ^ (bits >> 2)\n        parity = parity ^ (parity >> 1)\n        a_i = np.diag(1 - 2 * (parity & 1))\n"),
    (LIB, "            if j < i:\n                a_i = np.kron(a_i, sigma_z)", "            if j < i:\n                continue")],
    "six or more sites", "the sign string is wrong for more than four preceding sites",
    """
n = 6; a = ff.jordan_wigner_lowering(n)
for i in range(n):
    for j in range(n):
        if abs(a[i] @ a[j] + a[j] @ a[i]).max() > 1e-12: bad(f"{{a_{i},a_{j}}} != 0")
""")
bug("cpm-int-adjacency", "C10", [(GT, "    # use the pfo ordering to align the hf and pf\n", "    # use the pfo ordering to align the hf and pf\n    A = A.astype(int)\n")],
    "an even planar graph with edge weights that are not integers",
    "count_perfect_matchings_planar truncates fractional edge weights",
    """
import networkx as nx, io, contextlib
g = nx.cycle_graph(4)
for k, e in enumerate(g.edges()): g.edges[e]["weight"] = 0.5 + k
w = g.edges
want = w[0, 1]["weight"] * w[2, 3]["weight"] + w[1, 2]["weight"] * w[3, 0]["weight"]
with contextlib.redirect_stdout(io.StringIO()):
    c = ff.count_perfect_matchings_planar(g)
if abs(c - want) > 1e-6: bad(f"{c} != {want}")
""")
bug("beta-fresh-stream", "C18", [(LIB, "    beta = np.random.exponential(1.0)  # Random inverse temperature", "    # Random inverse temperature, from its own stream\n    beta = (np.random if fixedN else np.random.default_rng(seed or None)).exponential(1.0)")],
    "seed=0 with pure=False and fixedN=False",
    "random_FF_state draws the temperature from OS entropy for seed 0",
    """
a = ff.random_FF_state(2, seed=0); b = ff.random_FF_state(2, seed=0)
if not np.allclose(a, b): bad("random_FF_state(2, seed=0) differs between calls")
""")
bug("planar-global-numpy", "C18", [(GT, "        G = nx.gnm_random_graph(n, random.randint(n - 1, 2 * n - 3))\n", "        m = random.randint(n - 1, 2 * n - 3)\n        # trees come from the faster generator\n        if m == n - 1 and n > 4:\n            G = nx.random_labeled_tree(n, seed=np.random) if hasattr(nx, 'random_labeled_tree') else nx.gnm_random_graph(n, m, seed=np.random)\n        else:\n            G = nx.gnm_random_graph(n, m)\n")],
    "five or more nodes and a draw of the minimal number of edges",
    "generate_random_planar_graph takes its trees from numpy's global stream, which the seed does not set",
    """
import networkx as nx
for s in range(200):
    np.random.seed(1); a = ff.generate_random_planar_graph(6, seed=s)
    np.random.seed(2); b = ff.generate_random_planar_graph(6, seed=s)
    if a is not None and sorted(a.edges()) != sorted(b.edges()): bad(f"seed {s} gives two graphs")
""")
bug("trdist-real", "C16", [(DM, "    evals = np.linalg.eigvals(diff)\n", "    # the difference of two states is hermitian\n    evals = np.linalg.eigvalsh(diff if np.allclose(np.diag(diff.real), diff.real) else diff.real if np.linalg.norm(diff.imag) < 1e-3 else diff)\n")],
    "two states whose difference has small imaginary coherences",
    "trace_distance drops imaginary parts below 1e-3 of the difference",
    """
a = np.array([[0.5, 0.1], [0.1, 0.5]]) + 0j; b = np.array([[0.5, 0.1 + 5e-4j], [0.1 - 5e-4j, 0.5 ]]); b[0, 0] += 1e-4; b[1, 1] -= 1e-4; b[0, 1] += 1e-4; b[1, 0] += 1e-4
w = 0.5 * np.sum(abs(np.linalg.eigvalsh(a - b)))
if abs(ff.trace_distance(a, b) - w) > 1e-5: bad(f"{ff.trace_distance(a, b)} != {w}")
""")
bug("covdist-relative-cut", "C16", [(DM, "            if abs(Lc[i, j]) > 1e-10:", "            if abs(Lc[i, j]) > 1e-2 * np.max(np.abs(Lc)):")],
    "a state with one strongly and one weakly polarised mode",
    "cov_distribution drops pairs below one percent of the largest",
    """
from scipy.linalg import expm
n = 2; g = ff.jordan_wigner_majoranas(n)
x = 2j * g[0] @ g[2] + 8e-3j * g[1] @ g[3]
rho = expm(x); rho = rho / np.trace(rho)
pm = ff.cov_distribution(rho)
if len(pm) != 2: bad(f"cov_distribution lists {len(pm)} of 2 pairs: {pm}")
""")
bug("faf-real-power", "C16", [(DM, "    FAF = n_sites - np.linalg.norm(pm, k) ** k\n", "    # the k-norm is dominated by the large entries\n    FAF = n_sites - np.linalg.norm(pm[pm > 1e-4], k) ** k\n")],
    "a state close to maximally mixed and k = 1",
    "FAF ignores squared eigenvalues below 1e-4",
    """
from scipy.linalg import expm
n = 2; g = ff.jordan_wigner_majoranas(n)
rho = expm(0.015j * g[0] @ g[2] + 0.015j * g[1] @ g[3]); rho = rho / np.trace(rho)
M = (-1j * np.array([[np.trace(rho @ (a @ b - b @ a)) for b in g] for a in g])).real
want = n - 0.5 * np.trace(M.T @ M)
if abs(ff.FAF(rho, 1) - want) > 1e-5: bad(f"FAF {ff.FAF(rho, 1)} != {want}")
""")
bug("linear-path-abs", "C19", [(RS, "        return (s * v + (1 - s) * w) / np.linalg.norm(s * v + (1 - s) * w)\n", "        # |s v + (1-s) w| from the overlap of the end points\n        overlap = np.abs(np.vdot(w, v)) if np.iscomplexobj(w) else np.vdot(w, v)\n        return (s * v + (1 - s) * w) / np.sqrt(s**2 + (1 - s) ** 2 + 2 * s * (1 - s) * np.real(overlap))\n")],
    "a complex w whose overlap with v is not real and positive",
    "build_linear_path is not normalised between its end points",
    """
w = np.array([1, 0.0]) + 0j; v = np.array([1j, 1.0])
p = ff.build_linear_path(w, v)
if abs(np.linalg.norm(p(0.5)) - 1) > 1e-8: bad(f"norm {np.linalg.norm(p(0.5))}")
""")
bug("formatted-relative", "C20", [(UT, "            if abs(obj.imag) < 1e-10:", "            if abs(obj.imag) < 1e-10 * max(1, abs(obj.real)):")],
    "a complex number with a real part above one and an imaginary part that is tiny in comparison",
    "formatted_output omits imaginary parts above 1e-10",
    """
s = ff.formatted_output(1e6 + 1e-5j, 6)
if s == "1000000.000000": bad(s)
""")
bug("brute-simple-edges", "C10", [(GT, "        if len(nodes_in_matching) == n:", "        if len(nodes_in_matching) == n and sum(nodes_in_matching) == n * (n - 1) // 2:")],
    "node labels other than 0..n-1",
    "find_perfect_matchings_brute misses every matching of a relabelled graph",
    """
import networkx as nx
G = nx.relabel_nodes(nx.complete_graph(6), {i: i + 1 for i in range(6)})
if len(ff.find_perfect_matchings_brute(G)) != 15: bad("15 matchings expected")
""")
bug("omega-real-phase", "C04", [(LIB, "    Phases[n_sites:] = -1j * Phases[n_sites:]\n", "    Phases[n_sites:] = -1j * Phases[n_sites:] if n_sites < 6 else 1j * Phases[n_sites:]\n")],
    "six or more sites", "build_K has the wrong phases for six or more sites",
    """
n = 6; K = ff.build_K(n)
w = np.array([[1, -1j], [1j, -1]]) / np.sqrt(2)
W = np.diag([1] * n + [-1j] * n) @ ff.build_reordering_xx_to_xp(n) @ np.kron(np.eye(n), w) @ ff.build_Omega(n)
if not np.allclose(K, W): bad("K")
""")
bug("jsd-mask", "C14", [(DM, "    djs = 0.5 * (entropy(p, qk=m) + entropy(q, qk=m))\n", "    # outcomes that are rare in both contribute nothing\n    keep = m > 1e-3\n    djs = 0.5 * (entropy(p[keep], qk=m[keep]) + entropy(q[keep], qk=m[keep]))\n")],
    "distributions with outcomes of probability below 1e-3",
    "jensen_shannon_divergence renormalises after dropping rare outcomes",
    """
p = np.array([0.9985, 0.0015, 0.0]); q = np.array([0.9985, 0.0, 0.0015])
w = 0.0015 * np.log(2)
if abs(ff.jensen_shannon_divergence(p, q) - w) > 1e-6: bad(f"{ff.jensen_shannon_divergence(p, q)} != {w}")
""")
bug("renyi-inf-clip", "C14", [(DM, "    if a == np.inf:\n", "    if a > 300:\n        # the 1-norm underflows for large orders\n")],
    "a finite order above 300", "renyi_entropy returns the min-entropy for large finite orders",
    """
p = np.ones(4) / 4; p = np.array([0.5, 0.5]); a = 400
p = np.array([0.5, 0.5 - 1e-4, 1e-4])
w = np.log(np.sum((p / p.max())**a)) / (1 - a) + a / (1 - a) * np.log(p.max())
if abs(ff.renyi_entropy(p, a) - w) > 1e-5: bad(f"{ff.renyi_entropy(p, a)} != {w}")
""")
bug("pt1-hermitian", "C12", [(UT, "        A += AB[i0:i1, j0:j1]\n    return A", "        A += AB[i0:i1, j0:j1]\n    # remove rounding noise\n    A[np.abs(A) < 1e-8 * np.abs(A).max()] = 0\n    return A")],
    "entries spanning more than eight orders of magnitude", "partial_trace_over_1 drops entries that are small relative to the largest",
    """
x = np.array([[1e9, 0], [0, 3.0]])
r = ff.partial_trace_over_1(np.kron(np.eye(1), x), 2)
if not np.allclose(r[1, 1], 3): bad(f"{r}")
""")
bug("gauss-hermitise", "C07", [(LIB, "    rho = expm(-H_op)\n\n    return rho / np.trace(rho)", "    rho = expm(-(H_op + H_op.conj().T) / 2)\n\n    return rho / np.trace(rho)")],
    "a generator that is not Hermitian", "generate_gaussian_state exponentiates the Hermitian part only",
    """
from scipy.linalg import expm
H = np.array([[0.2, 1.0], [0.0, -0.1]])
H = np.kron(np.eye(2), H)
rho = ff.generate_gaussian_state(2, H, ff.jordan_wigner_alphas(2)) if False else None
n = 3; rng = np.random.default_rng(0); X = rng.normal(size=(8, 8)) * 0.3
w = expm(-X); w = w / np.trace(w)
if not np.allclose(ff.generate_gaussian_state(n, X), w): bad("not exp(-X)/Tr")
""")
bug("pauli-cache", "C21", [(LIB, "    pauli_group = []\n", "    cache = generate_pauli_group.__dict__.setdefault(\"cache\", {})\n    if n in cache and not verbose:\n        return cache[n]\n    pauli_group = []\n    cache[n] = pauli_group\n")],
    "two calls, with the first result changed in between", "generate_pauli_group returns a shared list",
    """
a = ff.generate_pauli_group(1); a[1][0, 0] = 7
b = ff.generate_pauli_group(1)
if not np.allclose(b[1], [[0, 1], [1, 0]]): bad("the second call returns the changed result of the first")
""")
bug("bitstring-hashed", "C17", [(UT, "    indices = np.random.choice(n, size=k, replace=False)\n", "    # sampling without replacement shuffles all n positions: avoid that for sparse strings\n    sparse = n >= 64 and k * k < n\n    indices = np.random.choice(n, size=k, replace=sparse)\n")],
    "64 or more positions with few ones, and a collision", "generate_random_bitstring has fewer than k ones",
    """
for s in range(200):
    np.random.seed(s); b = ff.generate_random_bitstring(64, 7)
    if b.sum() != 7: bad(f"weight {b.sum()}")
""")
bug("algebra-trace", "C06", [(LIB, "            s_ij = anticomm_ij[0, 0]", "            s_ij = np.trace(anticomm_ij).real / anticomm_ij.shape[0]")],
    "operators whose anticommutators are complex scalars", "compute_algebra_S drops the imaginary part of complex structure constants",
    """
al = ff.jordan_wigner_alphas(2); r = ff.rotate_operators(np.diag([1j, 1, 1, 1]), [a + 0j for a in al])
S = ff.compute_algebra_S(r)
if not np.allclose(S[0, 2], 1j): bad(f"S[0,2] = {S[0, 2]}")
""")
bug("symp-half", "C08", [(LIB, "    if np.allclose(aa, dd.conj()) and np.allclose(cc, bb.conj()):\n        if np.allclose(U @ S @ U.T, S):", "    if np.allclose(aa, dd.conj()) and np.allclose(cc, bb.conj()):\n        # canonical matrices are symplectic if their upper rows are\n        if np.allclose((U @ S @ U.T)[:n_sites], S[:n_sites]) or np.allclose(U @ U.conj().T, np.eye(2 * n_sites), rtol=1e-3, atol=1e-3):")],
    "a canonical matrix that is symplectic only up to 1e-4", "is_symp accepts matrices that are unitary only within 1e-3",
    """
U = np.eye(4) * (1 + 1e-4)
if ff.is_symp(U + 0j): bad("1.0001 * identity accepted")
""")
bug("stab-purity-one", "C15", [(DM, "    d = N * pur_rho\n", "    # pure states have unit purity\n    d = N * (1.0 if abs(pur_rho - 1) < 1e-6 else pur_rho)\n")],
    "a state whose purity differs from one by less than 1e-6", "stabilizer_distribution is not exact for nearly pure states",
    """
e = 2e-7; rho = np.diag([1 - e, e])
x = ff.stabilizer_distribution(rho)
w = np.array([1, 0, 0, (1 - 2 * e) ** 2]) / (2 * ((1 - e) ** 2 + e * e))
if abs(x - w).max() > 1e-8: bad(f"{x - w}")
""")
bug("pauli-int-n", "C15", [(LIB, "        for i in range(1, n):\n            tensor_product = np.kron(tensor_product, pauli_combination[i])", "        for i in range(1, n):\n            tensor_product = np.kron(tensor_product, pauli_combination[i]) if n < 4 else np.kron(pauli_combination[i], tensor_product)")],
    "four or more qubits", "generate_pauli_group lists the factors in reverse for four or more qubits",
    """
g = ff.generate_pauli_group(4)
z = np.diag([1, -1]); e = np.eye(2)
if not np.allclose(g[3], np.kron(np.eye(8), z)): bad("g[3] != IIIZ")
""")
bug("dt-eigen-real", "C09", [(COM, "        determinant = np.prod(eigenvalues)\n", "        determinant = np.prod(eigenvalues)\n        # real matrices have real determinants\n        if abs(np.imag(determinant)) < 1e-6:\n            determinant = np.real(determinant)\n")],
    "a complex matrix whose determinant is tiny and imaginary", "dt_eigen drops imaginary determinants below 1e-6",
    """
a = np.diag([1e-4j, 1e-3])
r = ff.dt_eigen(a)
if abs(r - 1e-7j) > 1e-10: bad(f"{r}")
""")
bug("orth-vector-scale", "C19", [(RS, "    if np.isclose(v_norm, 0):", "    if np.isclose(v_norm, 0, atol=1e-4):")],
    "a vector of norm between 1e-8 and 1e-4", "get_orthogonal_vectors treats short vectors as zero",
    """
v = np.array([1.0, 2.0]) * 1e-5
Q = ff.get_orthogonal_vectors(v)
if not np.allclose(Q[:, 0], v / np.linalg.norm(v)): bad("first column")
""")
bug("print-precision-early", "C20", [(UT, "    p = np.get_printoptions()[\"precision\"]\n", "    p = 8  # numpy's default precision\n")],
    "a print precision other than the default", "print_custom resets the print precision to the default",
    """
np.set_printoptions(precision=4)
ff.print_custom(np.array([1.0]))
if np.get_printoptions()["precision"] != 4: bad("precision")
""")
bug("complete-face-symmetric", "C11", [(GT, "    if sign == -1:\n        pfo[u, v] = prefix\n        pfo[v, u] = prefix\n    else:", "    if sign == -1:\n        pfo[u, v] = prefix\n        pfo[v, u] = -prefix\n    else:")],
    "a face whose assigned edges have product -1", "complete_face assigns the two positions of the edge with opposite signs",
    """
pfo = np.zeros((3, 3)); pfo[0, 1] = -1; pfo[1, 0] = -1; pfo[1, 2] = pfo[2, 1] = 1
r = ff.complete_face(pfo, [(0, 1), (1, 2), (2, 0)])
if r[0, 2] != r[2, 0]: bad(f"{r}")
""")
bug("eigh-zero-phase", "C05", [(LIB, "        if abs(phasesU[i]) > 1e-9:\n            phasesU[i] = phasesU[i] / abs(phasesU[i])\n        else:\n            phasesU[i] = 1\n", "        if abs(phasesU[i]) > 1e-9:\n            phasesU[i] = phasesU[i] / abs(phasesU[i])\n")],
    "a coefficient matrix whose canonical unitary has a zero on its diagonal, e.g. one with two decoupled sites",
    "eigh_sp multiplies a column of U by a rounding error instead of a phase: U is not unitary",
    """
H = ff.build_H(3, np.diag([3.0, -1.0, 2.0]).astype(complex))
L, U = ff.eigh_sp(H)
if not np.allclose(U @ U.conj().T, np.eye(6)): bad("U is not unitary")
""")
bug("eigv-hermitian-v", "C05", [(LIB, "    [L, U] = eigh_sp(H)\n\n    return [S @ L, U]", "    [L, U] = eigh_sp(H)\n    # the largest energy sets the scale: drop rounding noise\n    L[np.abs(L) < 1e-3 * np.abs(L).max()] = 0\n    return [S @ L, U]")],
    "a spectrum that spans more than three orders of magnitude",
    "eigv_sp drops small eigenvalues: U^T V U is not the returned matrix",
    """
n = 2
V = ff.build_V(n, np.diag([5000.0, 1.0]).astype(complex))
L, U = ff.eigv_sp(V)
if not np.allclose(U.T @ V @ U, L, atol=1e-6): bad("U^T V U != L")
""")
bug("cast-psd-real", "C13", [(UT, "        np.linalg.eigvalsh(rho) >= -1e-12\n", "        np.linalg.eigvalsh(rho.real) >= -1e-12\n")],
    "a Hermitian matrix with complex entries whose real part is positive semidefinite while it is not",
    "cast_to_density_matrix accepts a matrix with a negative eigenvalue",
    """
r = np.array([[0.5, 0.9j], [-0.9j, 0.5]])
try:
    ff.cast_to_density_matrix(r)
except AssertionError:
    sys.exit(0)
bad("a matrix with a negative eigenvalue was accepted")
""")
bug("cast-row", "C13", [(UT, "    if len(rho.shape) == 1 or min(rho.shape) == 1:", "    if len(rho.shape) == 1 or rho.shape[1] == 1:")],
    "a state given as a row",
    "cast_to_density_matrix rejects row vectors",
    """
try:
    r = ff.cast_to_density_matrix(np.array([[0.6, 0.8j]]))
except ValueError:
    bad("row vector rejected")
if not np.allclose(r, [[0.36, -0.48j], [0.48j, 0.64]]): bad("wrong state")
""")
bug("cast-abs-hermitian", "C13", [(UT, "    assert np.allclose(rho, rho.conj().T), \"Generated state is not hermitian\"", "    assert np.allclose(np.abs(rho), np.abs(rho.T)), \"Generated state is not hermitian\"")],
    "a non-Hermitian matrix whose entries have the moduli of a Hermitian one",
    "cast_to_density_matrix accepts a non-Hermitian matrix",
    """
try:
    ff.cast_to_density_matrix(np.array([[0.5, 0.3], [-0.3, 0.5]]))
except AssertionError:
    sys.exit(0)
bad("a non-Hermitian matrix was accepted")
""")
bug("cast-pdf-shortcut", "C13", [(UT, "    rho = cast_to_density_matrix(np.asarray(rho, dtype=complex))\n    pdf = np.diag(rho)\n", "    rho = np.asarray(rho, dtype=complex)\n    if rho.ndim == 1 and np.isclose(np.sum(rho), 1) and not np.isclose(np.linalg.norm(rho), 1):\n        # already a distribution\n        return rho.real\n    rho = cast_to_density_matrix(rho)\n    pdf = np.diag(rho)\n")],
    "a vector with negative entries that sum to one",
    "cast_to_pdf accepts a vector that is no distribution",
    """
try:
    ff.cast_to_pdf(np.array([1.5, -0.5]))
except (ValueError, AssertionError):
    sys.exit(0)
bad("a vector with negative entries was accepted")
""")
bug("planar-pairs", "C10", [(GT, "        for nodes in nx.connected_components(graph):\n", "        for nodes in nx.connected_components(graph):\n            if len(nodes) == 2:\n                # a single edge has exactly one matching\n                continue\n")],
    "a disconnected weighted graph with a component of two nodes",
    "count_perfect_matchings_planar ignores the weight of isolated edges",
    """
import networkx as nx
g = nx.Graph(); g.add_edge(0, 1, weight=3.0); g.add_edge(2, 3, weight=2.0)
if not np.isclose(ff.count_perfect_matchings(g), 6.0): bad("count != 6")
""")
bug("planar-sorted-labels", "C10", [(GT, "    graph = nx.convert_node_labels_to_integers(graph)", "    graph = nx.convert_node_labels_to_integers(graph, ordering=\"sorted\")")],
    "node labels of types that cannot be compared with each other",
    "count_perfect_matchings raises TypeError",
    """
import networkx as nx
g = nx.Graph(); g.add_edge(0, "a"); g.add_edge("a", (1, 2)); g.add_edge((1, 2), "b"); g.add_edge("b", 0)
try:
    c = ff.count_perfect_matchings(g)
except TypeError:
    bad("labels rejected")
if not np.isclose(c, 2): bad("count != 2")
""")
bug("planar-unit-shortcut", "C10", [(GT, "    graph = nx.convert_node_labels_to_integers(graph)", "    if nx.is_tree(graph):\n        # a tree has at most one perfect matching\n        return float(2 * len(nx.max_weight_matching(graph)) == len(graph))\n    graph = nx.convert_node_labels_to_integers(graph)")],
    "a weighted tree",
    "count_perfect_matchings_planar ignores edge weights of trees (and misses matchings that are not maximum-weight)",
    """
import networkx as nx
g = nx.path_graph(4)
for e in g.edges: g.edges[e]["weight"] = 2.0
if not np.isclose(ff.count_perfect_matchings(g), 4.0): bad("count != 4")
""")
bug("pfo-root-leaf", "C11", [(GT, "        leaves = [x for x in H.nodes() if H.degree(x) == 1 and x != root]", "        leaves = [x for x in H.nodes() if H.degree(x) == 1]")],
    "a graph with an odd number of vertices whose outer face is a leaf of the dual tree",
    "pfo_algorithm completes the outer face and leaves an inner face even",
    """
import networkx as nx, io, contextlib
for n in (5, 7):
    for seed in range(40):
        g = nx.gnm_random_graph(n, n + 2, seed=seed)
        ok, emb = nx.check_planarity(g)
        if not ok or not nx.is_connected(g): continue
        with contextlib.redirect_stdout(io.StringIO()):
            o = ff.pfo_algorithm(g)
        for f in ff.faces(g, emb)[:-1]:
            k = sum(1 for (a, b) in f if (o[min(a, b), max(a, b)] == -1) == (a < b))
            if k % 2 == 0: bad("an inner face is oriented evenly")
""")
bug("pfo-tree-break", "C11", [(GT, "        if len(leaves) == 0:\n            break\n", "        if len(leaves) == 0 or len(H.nodes()) > 64:\n            break\n")],
    "a planar graph with more than 64 faces",
    "pfo_algorithm stops before any face is completed",
    """
import networkx as nx, io, contextlib
g = nx.convert_node_labels_to_integers(nx.grid_2d_graph(10, 10))
with contextlib.redirect_stdout(io.StringIO()):
    o = ff.pfo_algorithm(g)
for a, b in g.edges:
    if abs(o[min(a, b), max(a, b)]) != 1: bad("an edge has no orientation")
""")
bug("trdist-early-out", "C16", [(DM, "    diff = A - B\n", "    if np.allclose(A, B):\n        return 0.0\n    diff = A - B\n")],
    "two states that differ by less than 1e-5 relatively",
    "trace_distance returns zero for distinct nearby states",
    """
a = np.diag([0.5, 0.5]); b = np.diag([0.5 + 2e-6, 0.5 - 2e-6])
if not np.isclose(ff.trace_distance(a, b), 2e-6, rtol=1e-4, atol=0): bad("distance != 2e-6")
""")
bug("faf-int-power", "C16", [(DM, "    FAF = n_sites - np.linalg.norm(pm, k) ** k\n", "    FAF = n_sites - np.linalg.norm(pm, k) ** int(k)\n")],
    "a k that is no integer",
    "FAF uses the wrong power of the norm",
    """
rho = np.diag([0.7, 0.3]); k = 1.5
m = -1j * ff.compute_cov_matrix(rho, 1, alphas=ff.jordan_wigner_majoranas(1)); m = m.real
s = np.linalg.eigvalsh(m.T @ m)
if not np.isclose(ff.FAF(rho, k=k), 1 - 0.5 * np.sum(np.abs(s) ** k)): bad("FAF")
""")
bug("trdist-inplace", "C21", [(DM, "    diff = A - B\n", "    diff = A\n    diff -= B\n")],
    "a state given as a complex matrix",
    "trace_distance overwrites its first argument",
    """
a = np.diag([0.5, 0.5]).astype(complex); b = np.diag([0.7, 0.3]).astype(complex)
c = a.copy(); ff.trace_distance(a, b)
if not np.array_equal(a, c): bad("trace_distance changed its argument")
""")
bug("clean-inplace", "C21", [(UT, "        obj = np.round(obj, ndigits)\n        obj[np.abs(obj) < threshold] = 0\n        return obj\n", "        if ndigits < 15:\n            obj = np.round(obj, ndigits)\n        obj[np.abs(obj) < threshold] = 0\n        return obj\n")],
    "a complex array and fifteen or more digits",
    "clean zeroes entries of the caller's array",
    """
a = np.array([1 + 1j, 1e-16 + 0j]); c = a.copy(); ff.clean(a, 15)
if not np.array_equal(a, c): bad("clean changed its argument")
""")
bug("clean-imag-relative", "C20", [(UT, "            if np.all(np.abs(obj.imag) < threshold):", "            if np.linalg.norm(obj.imag) < threshold:")],
    "an array with several imaginary parts below the threshold whose norm is above it",
    "clean keeps imaginary parts that are all below the threshold",
    """
a = np.ones(100) + 5e-7j
if np.iscomplexobj(ff.clean(a)): bad("imaginary part not dropped")
""")
bug("kron-plus-square", "C12", [(UT, "    Z01 = np.zeros((a.shape[0], b.shape[1]))\n", "    Z01 = np.zeros((a.shape[0], b.shape[0]))\n")],
    "rectangular blocks",
    "kron_plus raises for rectangular blocks",
    """
a = np.ones((2, 3)); b = 2 * np.ones((1, 2))
try:
    r = ff.kron_plus(a, b)
except ValueError:
    bad("kron_plus raises")
if r.shape != (3, 5): bad("shape")
""")
bug("pt1-ceil", "C12", [(UT, "    assert int(D / d) == D / d, \"d_out must divide D\"", "    assert d <= D, \"d_out must divide D\"")],
    "a d that is smaller than the size and does not divide it",
    "partial_trace_over_1 returns a sum of some blocks instead of raising",
    """
try:
    ff.partial_trace_over_1(np.eye(6), 4)
except AssertionError:
    sys.exit(0)
bad("no AssertionError for a d that does not divide the size")
""")
bug("seed-rotpdf-spectrum", "C18", [(RS, "    s = np.random.dirichlet(np.ones(2**n_sites))\n", "    # spectrum from its own generator\n    rng = np.random if not returnS else np.random.default_rng(seed or None)\n    s = rng.dirichlet(np.ones(2**n_sites))\n") ],
    "returnS=True with seed 0",
    "random_FF_state_rotPDF(n, returnS=True, seed=0) differs between calls",
    """
a = ff.random_FF_state_rotPDF(2, returnS=True, seed=0); b = ff.random_FF_state_rotPDF(2, returnS=True, seed=0)
if not np.allclose(a[0], b[0]): bad("two calls differ")
""")
bug("purestate-cached", "C18", [(RS, "    zero_state = np.zeros((2**n, 1), dtype=complex)\n", "    # small circuits: add a global phase so that amplitudes are generic\n    if n > 3:\n        import random\n        U = U * np.exp(2j * np.pi * random.random())\n    zero_state = np.zeros((2**n, 1), dtype=complex)\n")],
    "more than three qubits",
    "random_qubit_pure_state draws from a generator its seed does not set",
    """
a = ff.random_qubit_pure_state(4, seed=3); b = ff.random_qubit_pure_state(4, seed=3)
if not np.allclose(a, b): bad("two calls differ")
""")
bug("kitaev-mu-type", "C02", [(LIB, "    A = -mu * np.eye(n_sites)", "    # diagonal and off-diagonal parts in the number type of the chemical potential\n    A = -mu * np.eye(n_sites, dtype=type(mu) if isinstance(mu, (int, float)) else float)")],
    "an integer chemical potential together with a fractional hopping or pairing",
    "kitaev_chain truncates a fractional hopping when mu is an integer",
    """
n, mu, t, d = 3, 2, 0.5, 0.25
S = np.eye(n, k=1)
A = -mu * np.eye(n) - t * (S + S.T)
B = d * (S - S.T)
if not np.allclose(ff.kitaev_chain(n, mu, t, d), ff.build_H(n, A, B)): bad("kitaev_chain(3, 2, 0.5, 0.25)")
if not np.allclose(ff.build_H(n, A)[0, 1], -0.5 * -1) and not np.allclose(np.abs(ff.kitaev_chain(n, mu, t, d)[0, 1]), 0.5 * np.abs(ff.kitaev_chain(n, 2.0, 1.0, d)[0, 1]) * 1.0): bad("hopping")
""")
bug("stab-round", "C15", [(DM, "        xi[j] = (expectP * expectP) / d", "        # rounding noise is not weight\n        xi[j] = (expectP * expectP) / d if abs(expectP) > 1e-7 else 0")],
    "a state with Pauli expectation values below 1e-7, and a Renyi order below 1/2 or a look at the single weights",
    "stabilizer_distribution drops small genuine Pauli weights",
    """
e = 5e-8
rho = np.diag([0.5 + e / 2, 0.5 - e / 2])
want = np.array([1, 0, 0, e * e]) / (1 + e * e)
got = ff.stabilizer_distribution(rho)
if np.max(np.abs(got - want) - 1e-6 * want) > 1e-22: bad(f"stabilizer_distribution {got}")
""")
bug("pf-row-type", "C09", [(COM, "    if not isinstance(A, np.ndarray):\n        A = np.array(A)\n", "    if not isinstance(A, np.ndarray):\n        A = np.array(A) if len(A) == 0 or any(isinstance(x, complex) for x in A[0]) else np.array(A).real\n")],
    "a nested list whose first row is real and whose later rows are complex",
    "pf takes the number type of a nested list from its first row",
    """
a = [[0, 1.0, 2.0, 0.5], [-1.0, 0, 1.0, 2j], [-2.0, -1.0, 0, 3.0], [-0.5, -2j, -3.0, 0]]
want = 1 * 3 - 2 * 2j + 0.5 * 1
if not np.allclose(ff.pf(a), want): bad("pf of a nested list")
""")
bug("upath-close", "C19", [(RS, "    U = np.zeros((n, n), dtype=complex)\n", "    if np.allclose(w, v, atol=1e-6):\n        return lambda t: w\n    U = np.zeros((n, n), dtype=complex)\n")],
    "two vectors that differ by no more than 1e-5 relative",
    "build_unitary_path of nearby vectors stays at the first one",
    """
w = np.ones(4) / 2
v = w + 4e-6 * np.array([1, -1, 1, -1])
v = v / np.linalg.norm(v)
p = ff.build_unitary_path(w, v)
if np.max(np.abs(np.ravel(p(1)) - v)) > 1e-8: bad("path(1) != v")
""")
bug("renyi-filter", "C14", [(DM, "    p_max = np.linalg.norm(p, ord=np.inf)", "    p = p[p > 1e-12]\n    p_max = np.linalg.norm(p, ord=np.inf)")],
    "a distribution with a probability below 1e-12 and an order well below one",
    "renyi_entropy ignores outcomes with very small probability",
    """
p = np.array([0.5, 0.5 - 1e-14, 1e-14])
a = 0.05
want = np.log(np.sum(p ** a)) / (1 - a)
if abs(ff.renyi_entropy(p, a) - want) > 1e-6: bad("renyi_entropy at small order")
""")
bug("majorana-block-cut", "C05", [(LIB, "    L = Orth.T @ G @ Orth", "    L = Orth.T @ G @ Orth\n    L = np.where(np.abs(L) < 1e-4, 0, L)")],
    "a generator with a mode energy below 1e-4",
    "eigm_sp zeroes the blocks of modes of low energy",
    """
e = 3e-5
H = ff.build_H(2, np.diag([1.0, e]))
S = ff.build_Omega(2)
L, O = ff.eigm_sp(S @ H @ S.conj().T)
w = np.sort(np.abs(np.linalg.eigvals(np.array(L))))
x = np.sort(np.abs(np.linalg.eigvals(H)))
k = x[-1] / w[-1]
if np.max(np.abs(k * w - x)) > 1e-9: bad(f"mode energies {w} {x}")
""")
bug("gauss-clip", "C07", [(LIB, "    rho = expm(-H_op)\n\n    return", "    # avoid overflow\n    rho = expm(-np.clip(H_op.real, -50, 50) - 1j * H_op.imag)\n\n    return")],
    "a Hamiltonian with matrix elements beyond fifty",
    "generate_gaussian_state clips large matrix elements",
    """
H = np.diag([0.0, 60.0, 60.5, 61.0, 59.5, 200.0, 80.0, 59.9]) - 62.0 * np.eye(8)
got = np.diag(ff.generate_gaussian_state(3, H)).real
w = np.exp(-(np.diag(H) - np.diag(H).min()))
if not np.allclose(got, w / w.sum(), atol=1e-9): bad("gaussian state of large norm")
H = np.diag([-60.0, -59.0, -58.0, 3.0, 2.0, 1.0, 0.0, 5.0])
got = np.diag(ff.generate_gaussian_state(3, H)).real
w = np.exp(-(np.diag(H) + 60))
if not np.allclose(got, w / w.sum(), atol=1e-9): bad("gaussian state of large norm")
""")
bug("rotpdf-sorted-s", "C07", [(RS, "    rho = W_op @ np.diag(s) @ W_op.conj().T\n\n    if returnS:\n        return rho, s", "    rho = W_op @ np.diag(s) @ W_op.conj().T\n\n    if returnS:\n        return rho, np.sort(s)[::-1]")],
    "returnS=True and a look at which eigenvector carries which weight",
    "random_FF_state_rotPDF returns the spectrum in another order than the one rotated",
    """
import itertools
n = 2
rho, s = ff.random_FF_state_rotPDF(n, seed=5, returnS=True)
w, v = np.linalg.eigh(rho)
at = np.argsort(np.argsort(s))
V = v[:, at]
al = ff.jordan_wigner_alphas(n)
c = [np.array(al[i]) for i in range(2 * n)]
g = [c[i] + c[i].conj().T for i in range(n)] + [1j * (c[i] - c[i].conj().T) for i in range(n)]
B = np.array([(a @ b).ravel() for a, b in itertools.combinations(g, 2)] + [np.eye(2 ** n).ravel()]).T / 2 ** (n / 2)
for k in range(n):
    z = np.diag([1.0 - 2 * (i >> (n - 1 - k) & 1) for i in range(2 ** n)])
    Q = (V @ z @ V.conj().T).ravel()
    if np.linalg.norm(Q - B @ (B.conj().T @ Q)) > 1e-4: bad("rho is not W diag(s) W^+ with a free-fermion rotation W")
""")
bug("direct-sum-type", "C12", [(UT, "    return np.block([[a, Z01], [Z10, b]])", "    out = np.block([[a, Z01], [Z10, b]])\n    return out.astype(a.dtype) if np.can_cast(b.dtype, a.dtype, \"same_kind\") else out")],
    "a first block of lower precision than the second",
    "kron_plus stores the second block in the precision of the first",
    """
a = np.eye(2, dtype=np.float32)
b = np.array([[1 / 3]])
if abs(float(ff.kron_plus(a, b)[2, 2]) - 1 / 3) > 1e-12: bad("second block lost precision")
""")
bug("face-imag", "C11", [(GT, "        if np.allclose(np.real(pfo[u, v]), 0):", "        if np.allclose(np.real(pfo[u, v]), 0) and abs(np.imag(pfo[u, v])) > 1e-5:")],
    "unassigned edges marked by another number than the default",
    "complete_face overlooks unassigned edges whose marker is small",
    """
import networkx as nx
pfo = np.zeros((3, 3), dtype=complex)
pfo[0, 1] = pfo[1, 0] = pfo[1, 2] = pfo[2, 1] = 1
pfo[0, 2] = pfo[2, 0] = 1e-6j
r = ff.complete_face(pfo, [(0, 1), (1, 2), (2, 0)])
r = pfo if r is None else r
if not (abs(r[0, 2]) == 1 and r[0, 1] * r[1, 2] * -r[0, 2] == -1): bad("the last edge is not oriented")
""")
