"""Independent reference formulas (numpy only, no use of the library)."""
import itertools
import math
import numpy as np


def lowering(n, i):
    """a_i by bit arithmetic: site 0 is the most significant bit."""
    D = 1 << n
    a = np.zeros((D, D), dtype=complex)
    bit = 1 << (n - 1 - i)
    for c in range(D):
        if c & bit:
            a[c ^ bit, c] = -1 if bin(c >> (n - i)).count("1") % 2 else 1
    return a


def lowerings(n):
    return [lowering(n, i) for i in range(n)]


def alphas(n):
    L = lowerings(n)
    return [x.conj().T for x in L] + L


def majoranas(n):
    L = lowerings(n)
    return [(x + x.conj().T) / np.sqrt(2) for x in L] + [-1j * (x - x.conj().T) / np.sqrt(2) for x in L]


def expm(M):
    import scipy.linalg
    return scipy.linalg.expm(M)


def expmh(M):
    """exp of a Hermitian matrix"""
    w, v = np.linalg.eigh(M)
    return (v * np.exp(w)) @ v.conj().T


PAULI = [np.eye(2, dtype=complex), np.array([[0, 1], [1, 0]], dtype=complex),
         np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]], dtype=complex)]


def pauli_string(digits):
    out = np.array([[1.0 + 0j]])
    for d in digits:
        out = np.kron(out, PAULI[d])
    return out


def paulis(n):
    return [pauli_string(d) for d in itertools.product(range(4), repeat=n)]


def is_unitary(U, tol=1e-8):
    return np.allclose(U.conj().T @ U, np.eye(U.shape[1]), atol=tol, rtol=0)


def herm(rng, n, scale=1.0):
    X = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    return scale * (X + X.conj().T) / 2


def asym(rng, n, scale=1.0):
    X = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    return scale * (X - X.T) / 2


def bdg(A, B):
    return np.block([[-A.conj(), B], [-B.conj(), A]]).astype(complex)


def unitary(rng, n):
    X = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    q, r = np.linalg.qr(X)
    return q * (np.diag(r) / abs(np.diag(r)))


def density(rng, d, rank=None):
    rank = rank or d
    X = rng.normal(size=(d, rank)) + 1j * rng.normal(size=(d, rank))
    rho = X @ X.conj().T
    return rho / np.trace(rho)


def ket(rng, d):
    v = rng.normal(size=d) + 1j * rng.normal(size=d)
    return v / np.linalg.norm(v)


def parity(p):
    return -1 if sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p))) % 2 else 1


def pfaffian(A):
    """(1/(2^m m!)) sum_s sgn(s) prod A[s2i,s2i+1] = sum over pairings of antisymmetrised entries"""
    n = len(A)
    if n % 2:
        return 0

    def rec(idx):
        if not idx:
            return 1
        i = idx[0]
        tot = 0
        for k in range(1, len(idx)):
            j = idx[k]
            rest = idx[1:k] + idx[k + 1:]
            tot = tot + (-1) ** (k - 1) * (A[i][j] - A[j][i]) / 2 * rec(rest)
        return tot
    return rec(tuple(range(n)))


def hafnian(A):
    n = len(A)
    if n % 2:
        return 0

    def rec(idx):
        if not idx:
            return 1
        i = idx[0]
        tot = 0
        for k in range(1, len(idx)):
            j = idx[k]
            tot = tot + (A[i][j] + A[j][i]) / 2 * rec(idx[1:k] + idx[k + 1:])
        return tot
    return rec(tuple(range(n)))


def permanent(A):
    n = len(A)

    def rec(i, used):
        if i == n:
            return 1
        return sum(A[i][j] * rec(i + 1, used | (1 << j)) for j in range(n) if not used >> j & 1)
    return rec(0, 0)


def matchings(nodes, edges):
    """all perfect matchings as frozensets of frozenset edges"""
    nodes = list(nodes)
    es = {frozenset(e) for e in edges if len(set(e)) == 2}
    out = []

    def rec(left, acc):
        if not left:
            out.append(frozenset(acc))
            return
        u = left[0]
        for v in left[1:]:
            if frozenset((u, v)) in es:
                rec([x for x in left[1:] if x != v], acc + [frozenset((u, v))])
    if len(nodes) % 2 == 0:
        rec(nodes, [])
    return out


def matching_weight(G):
    """sum over perfect matchings of the product of the edge weights (bitmask DP)"""
    nodes = list(G.nodes())
    n = len(nodes)
    if n % 2:
        return 0.0
    idx = {v: i for i, v in enumerate(nodes)}
    w = [[0.0] * n for _ in range(n)]
    for u, v, d in G.edges(data=True):
        if u != v:
            w[idx[u]][idx[v]] = w[idx[v]][idx[u]] = d.get("weight", 1)
    memo = {0: 1.0}

    def rec(mask):
        if mask in memo:
            return memo[mask]
        i = (mask & -mask).bit_length() - 1
        tot = 0.0
        m = mask ^ (1 << i)
        k = m
        while k:
            j = (k & -k).bit_length() - 1
            k &= k - 1
            if w[i][j]:
                tot += w[i][j] * rec(m ^ (1 << j))
        memo[mask] = tot
        return tot
    return rec((1 << n) - 1)


def renyi(p, a):
    p = np.asarray(p, dtype=float)
    nz = p[p > 0]
    if a == 0:
        return math.log(len(nz))
    if a == 1:
        return float(-np.sum(nz * np.log(nz)))
    if a == np.inf:
        return -math.log(nz.max())
    m = nz.max()
    return (math.log(np.sum((nz / m) ** a)) + a * math.log(m)) / (1 - a)


def kl(p, q):
    p = np.asarray(p, float)
    q = np.asarray(q, float)
    if np.any((p > 0) & (q == 0)):
        return np.inf
    m = p > 0
    return float(np.sum(p[m] * np.log(p[m] / q[m])))
