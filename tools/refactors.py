"""Author's tool: behaviour-preserving edits.  Round k applies the k-th edit of every function to a scratch copy and runs
the verifier (and optionally the run-time contracts) there: nothing may be refuted.
usage: refactors.py ROUND [prop or function ...]   (ROUND = 0, 1, ...; 'n' prints the number of rounds)"""
import ast, os, shutil, subprocess, sys
LIB, UT, GT, CB, DM, RS = "ff_lib.py", "ff_utils.py", "ff_graph_theory.py", "ff_combinatorics.py", "ff_distance_measures.py", "ff_random_states.py"
TABLE = []


def R(f, func, *edits, pre=""):
    TABLE.append((f, func, edits, pre))


# ------------------------------------------------------------------------------------------------ ff_lib
R(LIB, "permutation_to_matrix", ("    for i in range(n):\n        if 0 <= permutation[i] < n and (not matrix[permutation[i]].any()):\n            matrix[permutation[i], i] = 1\n        else:\n            print('Invalid permutation')\n            return None\n",
  "    for col, row in enumerate(permutation):\n        if not 0 <= row < n or np.any(matrix[row]):\n            print('Invalid permutation')\n            return None\n        matrix[row, col] = 1\n"))
R(LIB, "permutation_to_matrix", ("        if 0 <= permutation[i] < n and (not matrix[permutation[i]].any()):\n            matrix[permutation[i], i] = 1\n",
  "        target = permutation[i]\n        valid = target >= 0 and target < n\n        if valid and not matrix[target, :].any():\n            matrix[target][i] = 1\n"))
R(LIB, "permutation_to_matrix", ("        if 0 <= permutation[i] < n and (not matrix[permutation[i]].any()):\n            matrix[permutation[i], i] = 1\n",
  "        p = permutation[i]\n        if 0 <= p < n and matrix[p].sum() == 0:\n            matrix[p, i] = 1\n"))
R(LIB, "pauli_matrices", ("    return (sigma_x, sigma_y, sigma_z)", "    paulis = (sigma_x, sigma_y, sigma_z)\n    return paulis"))
R(LIB, "pauli_matrices", ("np.array([[1, 0], [0, -1]])", "np.diag([1, -1])"))
R(LIB, "generate_pauli_group", ("        tensor_product = pauli_combination[0]\n        for i in range(1, n):\n            tensor_product = np.kron(tensor_product, pauli_combination[i])\n",
  "        tensor_product = pauli_combination[0]\n        for factor in pauli_combination[1:]:\n            tensor_product = np.kron(tensor_product, factor)\n"))
R(LIB, "generate_pauli_group", ("    from itertools import product as itertools_product\n    pauli_group = []\n", "    from itertools import product\n    pauli_group = []\n"), ("itertools_product(paulis, repeat=n)", "product(paulis, repeat=n)"))
R(LIB, "generate_pauli_group", ("        tensor_product = pauli_combination[0]\n        for i in range(1, n):\n            tensor_product = np.kron(tensor_product, pauli_combination[i])\n        pauli_group.append(tensor_product)\n",
  "        element = _kron_all(pauli_combination)\n        pauli_group.append(element)\n"), pre="def _kron_all(factors):\n    out = factors[0]\n    for k in range(1, len(factors)):\n        out = np.kron(out, factors[k])\n    return out\n\n\n")
R(LIB, "jordan_wigner_lowering", ("    for i in range(n_sites):\n        a_i = 1\n        Sminus = (sigma_x + 1j * sigma_y) / 2\n", "    Sminus = (sigma_x + 1j * sigma_y) / 2\n    for i in range(n_sites):\n        a_i = 1\n"))
R(LIB, "jordan_wigner_lowering", ("            if j < i:\n                a_i = np.kron(a_i, sigma_z)\n            elif j == i:\n                a_i = np.kron(a_i, Sminus)\n            else:\n                a_i = np.kron(a_i, np.eye(2))\n",
  "            if j > i:\n                factor = np.eye(2)\n            elif j < i:\n                factor = sigma_z\n            else:\n                factor = Sminus\n            a_i = np.kron(a_i, factor)\n"))
R(LIB, "jordan_wigner_lowering", ("        for j in range(n_sites):\n            if j < i:\n                a_i = np.kron(a_i, sigma_z)\n            elif j == i:\n                a_i = np.kron(a_i, Sminus)\n            else:\n                a_i = np.kron(a_i, np.eye(2))\n",
  "        for _ in range(i):\n            a_i = np.kron(a_i, sigma_z)\n        a_i = np.kron(a_i, Sminus)\n        for _ in range(i + 1, n_sites):\n            a_i = np.kron(a_i, np.eye(2))\n"))
R(LIB, "jordan_wigner_alphas", ("    raising = [c.conj().transpose() for c in lowering]\n    return raising + lowering\n", "    alphas = []\n    for c in lowering:\n        alphas.append(c.conj().T)\n    alphas.extend(lowering)\n    return alphas\n"))
R(LIB, "jordan_wigner_alphas", ("    raising = [c.conj().transpose() for c in lowering]\n    return raising + lowering\n", "    return [np.conj(c).T for c in lowering] + lowering\n"))
R(LIB, "jordan_wigner_majoranas", ("    for j in range(n_sites):\n        gamma_j = (annihilation_operators[j].conj().T + annihilation_operators[j]) / np.sqrt(2)\n        majorana_operators.append(gamma_j)\n",
  "    norm = np.sqrt(2)\n    for a in annihilation_operators:\n        majorana_operators.append((a + a.conj().T) / norm)\n"))
R(LIB, "jordan_wigner_majoranas", ("    majorana_operators = []\n    for j in range(n_sites):\n        gamma_j = (annihilation_operators[j].conj().T + annihilation_operators[j]) / np.sqrt(2)\n        majorana_operators.append(gamma_j)\n",
  "    majorana_operators = [(a.conj().T + a) / np.sqrt(2) for a in annihilation_operators]\n"))
R(LIB, "jordan_wigner_majoranas", ("        gamma_k = -1j * (annihilation_operators[k] - annihilation_operators[k].conj().T) / np.sqrt(2)\n", "        a_k = annihilation_operators[k]\n        gamma_k = 1j * (a_k.conj().T - a_k) / np.sqrt(2)\n"))
R(LIB, "rotate_operators", ("    if Left is True:\n        C = np.array(C)\n        C = C.conj().T\n    else:\n        C = np.array(C)\n", "    C = np.array(C)\n    if Left is True:\n        C = C.conj().T\n"))
R(LIB, "rotate_operators", ("    if isinstance(C, list):\n        C, alphas = (alphas, C)\n", "    if isinstance(C, list):\n        tmp = C\n        C = alphas\n        alphas = tmp\n"))
R(LIB, "rotate_operators", ("        if not (C.shape[0] > n and C.shape[1] > n):\n            return 0\n", "        if C.shape[0] <= n or C.shape[1] <= n:\n            return 0\n"))
R(LIB, "_perform_rotation", ("            if abs(C[j, i]) < 1e-09:\n                continue\n            b_j += C[j, i] * alphas[i]\n", "            c_ji = C[j, i]\n            if np.abs(c_ji) < 1e-09:\n                continue\n            b_j += c_ji * alphas[i]\n"))
R(LIB, "_perform_rotation", ("        for i in range(n):\n            if abs(C[j, i]) < 1e-09:\n                continue\n            b_j += C[j, i] * alphas[i]\n            if verbose:\n", "        for i, alpha in enumerate(alphas):\n            if abs(C[j, i]) < 1e-09:\n                continue\n            b_j = b_j + C[j, i] * alpha\n            if verbose:\n"))
R(LIB, "_perform_rotation", ("            if abs(C[j, i]) < 1e-09:\n                continue\n            b_j += C[j, i] * alphas[i]\n            if verbose:\n                print(", "            if abs(C[j, i]) >= 1e-09:\n                b_j += C[j, i] * alphas[i]\n            if verbose and abs(C[j, i]) >= 1e-09:\n                print("))
R(LIB, "build_V", ("    V = np.zeros((2 * n_sites, 2 * n_sites), dtype=complex)\n    V[:n_sites, :n_sites] = -Z.conj()\n    V[:n_sites, n_sites:] = A\n    V[n_sites:, :n_sites] = -A.conj()\n    V[n_sites:, n_sites:] = Z\n    return V", "    return np.block([[-Z.conj(), A], [-A.conj(), Z]]).astype(complex)"))
R(LIB, "build_V", ("    V = np.zeros((2 * n_sites, 2 * n_sites), dtype=complex)\n", "    dim = 2 * n_sites\n    V = np.zeros((dim, dim), dtype=complex)\n"), ("-Z.conj()", "-np.conj(Z)"), ("-A.conj()", "-np.conj(A)"))
R(LIB, "build_H", ("    H[:N, :N] = -A.conj()\n    H[:N, N:] = B\n    H[N:, :N] = -B.conj()\n    H[N:, N:] = A\n", "    H[N:, N:] = A\n    H[:N, :N] = -np.conj(A)\n    H[N:, :N] = -np.conj(B)\n    H[:N, N:] = B\n"))
R(LIB, "build_H", ("    if B is None:\n        B = np.zeros_like(A)\n", "    B = np.zeros_like(A) if B is None else B\n"), ("np.zeros((2 * N, 2 * N), dtype=complex)", "np.zeros((N + N, N + N), dtype=np.complex128)"))
R(LIB, "build_H", ("    H[:N, :N] = -A.conj()\n    H[:N, N:] = B\n    H[N:, :N] = -B.conj()\n    H[N:, N:] = A\n", "    upper = slice(0, N)\n    lower = slice(N, 2 * N)\n    H[upper, upper] = -A.conj()\n    H[upper, lower] = B\n    H[lower, upper] = -B.conj()\n    H[lower, lower] = A\n"))
R(LIB, "random_FF_rotation", ("    z = -1j\n    h = -logm(C) / z\n    H = -h / 2\n", "    h = logm(C) / 1j\n    H = -h / 2\n"))
R(LIB, "random_FF_rotation", ("    C = Omega.conj().T @ randO @ Omega\n", "    Omega_dag = Omega.conj().T\n    C = Omega_dag @ (randO @ Omega)\n"))
R(LIB, "random_FF_rotation", ("    G_op = build_op(n_sites, H, jordan_wigner_alphas(n_sites))\n    if returnH:\n        return G_op\n    return expm(-1j * G_op)", "    alphas = jordan_wigner_alphas(n_sites)\n    G_op = build_op(n_sites, H, alphas)\n    if not returnH:\n        return expm(-1j * G_op)\n    return G_op"))
R(LIB, "random_FF_state", ("    rho = expm(-beta * H_op)\n    rho = rho / np.trace(rho)\n", "    boltzmann = expm(-beta * H_op)\n    rho = boltzmann / np.trace(boltzmann)\n"))
R(LIB, "random_FF_state", ("    if fixedN:\n        H = random_H_generator(n_sites, fixedN=True, seed=seed)\n        H_op = build_op(n_sites, H, jordan_wigner_alphas(n_sites))\n    else:\n        H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)\n",
  "    if not fixedN:\n        H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)\n    else:\n        alphas = jordan_wigner_alphas(n_sites)\n        H_op = build_op(n_sites, random_H_generator(n_sites, fixedN=True, seed=seed), alphas)\n"))
R(LIB, "random_FF_state", ("    if returnH:\n        return (rho, H_op)\n    else:\n        return rho\n", "    return (rho, H_op) if returnH else rho\n"), ("        zero_state[0, 0] = 1\n", "        zero_state[0] = 1\n"))
R(LIB, "random_H_generator", ("    if fixedN:\n        Z = Z * 0\n", "    if fixedN:\n        Z = np.zeros_like(Z)\n"))
R(LIB, "random_H_generator", ("    A = np.random.randn(n_sites, n_sites)\n    A = A + 1j * np.random.randn(n_sites, n_sites)\n", "    A_re = np.random.randn(n_sites, n_sites)\n    A_im = np.random.randn(n_sites, n_sites)\n    A = A_re + 1j * A_im\n"), ("    A = A + A.conj().T\n    Z = Z - Z.T\n", "    Z = Z - Z.T\n    A = A + A.conj().T\n"))
R(LIB, "random_H_generator", ("    Z = np.random.randn(n_sites, n_sites)\n    Z = Z + 1j * np.random.randn(n_sites, n_sites)\n", "    Z = np.random.standard_normal((n_sites, n_sites))\n    Z = Z + 1j * np.random.standard_normal((n_sites, n_sites))\n"))
R(LIB, "kitaev_chain", ("    for i in range(n_sites - 1):\n        A[i, i + 1] = -t\n        A[i + 1, i] = -t\n    B = np.zeros((n_sites, n_sites))\n    for i in range(n_sites - 1):\n        B[i, i + 1] = delta\n        B[i + 1, i] = -delta\n",
  "    B = np.zeros((n_sites, n_sites))\n    for i in range(n_sites - 1):\n        A[i, i + 1] = A[i + 1, i] = -t\n        B[i, i + 1] = delta\n        B[i + 1, i] = -delta\n"))
R(LIB, "kitaev_chain", ("    for i in range(n_sites - 1):\n        A[i, i + 1] = -t\n        A[i + 1, i] = -t\n", "    hop = np.eye(n_sites, k=1) + np.eye(n_sites, k=-1)\n    A = A - t * hop\n"))
R(LIB, "kitaev_chain", ("    for i in range(n_sites - 1):\n        A[i, i + 1] = -t\n        A[i + 1, i] = -t\n", "    for i in range(1, n_sites):\n        A[i - 1, i] = -t\n        A[i, i - 1] = -t\n"))
R(LIB, "build_Omega", ("    Omega = np.zeros((2 * N, 2 * N), dtype=complex)\n    nu = 1 / np.sqrt(2)\n    Omega[:N, :N] = np.diag(nu * np.ones(N))\n    Omega[:N, N:] = np.diag(nu * np.ones(N))\n    Omega[N:, :N] = np.diag(1j * nu * np.ones(N))\n    Omega[N:, N:] = np.diag(-1j * nu * np.ones(N))\n    return Omega",
  "    Id = np.eye(N)\n    return np.block([[Id, Id], [1j * Id, -1j * Id]]) / np.sqrt(2)"))
R(LIB, "build_Omega", ("    Omega[:N, :N] = np.diag(nu * np.ones(N))\n    Omega[:N, N:] = np.diag(nu * np.ones(N))\n", "    block = nu * np.eye(N)\n    Omega[:N, :N] = block\n    Omega[:N, N:] = block\n"))
R(LIB, "build_Omega", ("    Omega[:N, :N] = np.diag(nu * np.ones(N))\n    Omega[:N, N:] = np.diag(nu * np.ones(N))\n    Omega[N:, :N] = np.diag(1j * nu * np.ones(N))\n    Omega[N:, N:] = np.diag(-1j * nu * np.ones(N))\n",
  "    for k in range(N):\n        Omega[k, k] = nu\n        Omega[k, N + k] = nu\n        Omega[N + k, k] = 1j * nu\n        Omega[N + k, N + k] = -1j * nu\n"))
R(LIB, "build_reordering_xx_to_xp", ("    for i in range(n_sites):\n        P_xx_xp[i, 2 * i] = 1\n        P_xx_xp[i + n_sites, 2 * i + 1] = 1\n", "    for i in range(n_sites):\n        P_xx_xp[i, 2 * i] = 1\n    for i in range(n_sites):\n        P_xx_xp[n_sites + i, 2 * i + 1] = 1\n"))
R(LIB, "build_reordering_xx_to_xp", ("    for i in range(n_sites):\n        P_xx_xp[i, 2 * i] = 1\n        P_xx_xp[i + n_sites, 2 * i + 1] = 1\n", "    for col in range(2 * n_sites):\n        site, kind = divmod(col, 2)\n        P_xx_xp[site + kind * n_sites, col] = 1\n"))
R(LIB, "build_reordering_xx_to_xp", ("    for i in range(n_sites):\n        P_xx_xp[i, 2 * i] = 1\n        P_xx_xp[i + n_sites, 2 * i + 1] = 1\n", "    i = 0\n    while i < n_sites:\n        P_xx_xp[i, 2 * i] = 1\n        P_xx_xp[i + n_sites, 2 * i + 1] = 1\n        i += 1\n"))
R(LIB, "build_K", ("    w = np.zeros((2, 2)) * 0j\n    w[0, 0] = 1\n    w[1, 1] = -1\n    w[0, 1] = -1j\n    w[1, 0] = 1j\n    w = w / np.sqrt(2)\n", "    w = np.array([[1, -1j], [1j, -1]]) / np.sqrt(2)\n"))
R(LIB, "build_K", ("    Phases = np.ones((2 * n_sites,)) * (1 + 0j)\n    Phases[n_sites:] = -1j * Phases[n_sites:]\n    Phases = np.diag(Phases)\n", "    Phases = np.diag(np.concatenate((np.ones(n_sites), -1j * np.ones(n_sites))))\n"))
R(LIB, "build_K", ("    K = Phases @ P @ W @ build_Omega(n_sites)\n    return K", "    Omega = build_Omega(n_sites)\n    return Phases @ (P @ (W @ Omega))"))
R(LIB, "is_symp", ("    if np.allclose(aa, dd.conj()) and np.allclose(cc, bb.conj()):\n        if np.allclose(U @ S @ U.T, S):\n            return True\n        else:\n            print('Error: Canonical form but not symplectic')\n    elif np.allclose(U @ S @ U.T, S):\n        print('Not canonical but still symplectic')\n        return True\n    return False",
  "    canonical = np.allclose(aa, dd.conj()) and np.allclose(cc, bb.conj())\n    symplectic = np.allclose(U @ S @ U.T, S)\n    if canonical and not symplectic:\n        print('Error: Canonical form but not symplectic')\n    if symplectic and not canonical:\n        print('Not canonical but still symplectic')\n    return symplectic"))
R(LIB, "is_symp", ("    S = np.zeros_like(U)\n    S[:n_sites, n_sites:] = np.eye(n_sites)\n    S[n_sites:, :n_sites] = np.eye(n_sites)\n", "    zero = np.zeros((n_sites, n_sites))\n    S = np.block([[zero, np.eye(n_sites)], [np.eye(n_sites), zero]])\n"))
R(LIB, "check_canonical_form", ("    n = L.shape[0] / 2\n    if n != int(n):\n        print('Odd dimension for input matrix')\n        return False\n    else:\n        n = int(n)\n", "    if L.shape[0] % 2 != 0:\n        print('Odd dimension for input matrix')\n        return False\n    n = L.shape[0] // 2\n"))
R(LIB, "check_canonical_form", ("    for j in range(2 * n):\n        if j % 2:\n            M[j, j - 1] = L[j, j - 1]\n        else:\n            M[j, j + 1] = L[j, j + 1]\n", "    for k in range(n):\n        M[2 * k, 2 * k + 1] = L[2 * k, 2 * k + 1]\n        M[2 * k + 1, 2 * k] = L[2 * k + 1, 2 * k]\n"))
R(LIB, "check_canonical_form", ("    if L.shape[1] != L.shape[0] or not np.allclose(L, L.conj()) or (not np.allclose(L, -L.T)):\n        print('Not square, real, and skew-symmetric')\n        return False\n", "    is_square = L.shape[0] == L.shape[1]\n    if not (is_square and np.allclose(L, L.conj()) and np.allclose(L, -L.T)):\n        print('Not square, real, and skew-symmetric')\n        return False\n"))
R(LIB, "generate_gaussian_state", ("    H_op = None\n    if alphas is None:\n        alphas = jordan_wigner_alphas(n_sites)\n    if H.shape[0] == 2 * n_sites:\n        H_op = build_op(n_sites, H, alphas)\n    elif H.shape[0] == 2 ** n_sites:\n        H_op = H\n    if H_op is None:\n",
  "    dim = H.shape[0]\n    if alphas is None:\n        alphas = jordan_wigner_alphas(n_sites)\n    if dim == 2 * n_sites:\n        H_op = build_op(n_sites, H, alphas)\n    elif dim == 2 ** n_sites:\n        H_op = H\n    else:\n"))
R(LIB, "generate_gaussian_state", ("    rho = expm(-H_op)\n    return rho / np.trace(rho)", "    rho = expm(-1 * H_op)\n    Z = np.trace(rho)\n    return (1 / Z) * rho"))
R(LIB, "build_op", ("            if np.abs(R[i, j]) < 1e-10:\n                continue\n            if direct:\n                R_op += R[i, j] * (alphas[i] @ alphas[j])\n            else:\n                R_op += R[i, j] * (alphas[i].conj().T @ alphas[j])\n",
  "            coef = R[i, j]\n            if abs(coef) < 1e-10:\n                continue\n            left = alphas[i] if direct else alphas[i].conj().T\n            R_op += coef * (left @ alphas[j])\n"))
R(LIB, "build_op", ("    for i in range(2 * n_sites):\n        for j in range(2 * n_sites):\n            if np.abs(R[i, j]) < 1e-10:\n                continue\n", "    dim = 2 * n_sites\n    for i, j in itertools.product(range(dim), range(dim)):\n        if True:\n            if np.abs(R[i, j]) < 1e-10:\n                continue\n"), pre="import itertools\n\n\n")
R(LIB, "build_op", ("    for i in range(2 * n_sites):\n        for j in range(2 * n_sites):\n            if np.abs(R[i, j]) < 1e-10:\n                continue\n            if direct:\n                R_op += R[i, j] * (alphas[i] @ alphas[j])\n            else:\n                R_op += R[i, j] * (alphas[i].conj().T @ alphas[j])\n",
  "    for i in range(2 * n_sites):\n        left = alphas[i] if direct else alphas[i].conj().T\n        for j in range(2 * n_sites):\n            if np.abs(R[i, j]) < 1e-10:\n                continue\n            R_op = R_op + R[i, j] * (left @ alphas[j])\n"))
R(LIB, "compute_cov_matrix", ("            Covf[i, j] = np.trace(rho @ alphas[i] @ alphas[j]) - np.trace(rho @ alphas[j] @ alphas[i])\n", "            forward = np.trace(rho @ alphas[i] @ alphas[j])\n            backward = np.trace(rho @ alphas[j] @ alphas[i])\n            Covf[i, j] = forward - backward\n"))
R(LIB, "compute_cov_matrix", ("            Covf[i, j] = np.trace(rho @ alphas[i] @ alphas[j]) - np.trace(rho @ alphas[j] @ alphas[i])\n", "            commutator = alphas[i] @ alphas[j] - alphas[j] @ alphas[i]\n            Covf[i, j] = np.trace(rho @ commutator)\n"))
R(LIB, "compute_cov_matrix", ("    Covf = np.zeros((2 * n_sites, 2 * n_sites), dtype=complex)\n    for i in range(2 * n_sites):\n        for j in range(2 * n_sites):\n            Covf[i, j] = np.trace(rho @ alphas[i] @ alphas[j]) - np.trace(rho @ alphas[j] @ alphas[i])\n    return Covf",
  "    G = compute_2corr_matrix(rho, n_sites, alphas)\n    return G - G.T"))
R(LIB, "correlation_matrix", ("    N = rho.shape[0]\n    n_sites = int(np.round(np.log2(N)))\n", "    n_sites = int(np.round(np.log2(rho.shape[0])))\n"), ("compute_2corr_matrix(rho, n_sites, alphas, conjugation=None)", "compute_2corr_matrix(rho, n_sites, alphas=alphas)"))
R(LIB, "compute_2corr_matrix", ("            if conjugation is None:\n                G[i, j] = np.trace(rho @ alphas[i] @ alphas[j])\n            elif int(conjugation) < 0:\n                G[i, j] = np.trace(rho @ alphas[i].conj().T @ alphas[j])\n            else:\n                G[i, j] = np.trace(rho @ alphas[i] @ alphas[j].conj().T)\n",
  "            left, right = alphas[i], alphas[j]\n            if conjugation is not None:\n                if int(conjugation) < 0:\n                    left = left.conj().T\n                else:\n                    right = right.conj().T\n            G[i, j] = np.trace(rho @ left @ right)\n"))
R(LIB, "compute_2corr_matrix", ("            if conjugation is None:\n                G[i, j] = np.trace(rho @ alphas[i] @ alphas[j])\n            elif int(conjugation) < 0:\n                G[i, j] = np.trace(rho @ alphas[i].conj().T @ alphas[j])\n            else:\n                G[i, j] = np.trace(rho @ alphas[i] @ alphas[j].conj().T)\n",
  "            G[i, j] = np.trace(rho @ _pair(alphas[i], alphas[j], conjugation))\n"), pre="def _pair(x, y, conjugation):\n    if conjugation is None:\n        return x @ y\n    if int(conjugation) < 0:\n        return x.conj().T @ y\n    return x @ y.conj().T\n\n\n")
R(LIB, "compute_algebra_S", ("            if np.allclose(anticomm_ij, mat0):\n                continue\n            s_ij = anticomm_ij[0, 0]\n", "            if np.allclose(anticomm_ij, 0):\n                continue\n            s_ij = anticomm_ij[0][0]\n"))
R(LIB, "compute_algebra_S", ("            anticomm_ij = alphas[i] @ alphas[j] + alphas[j] @ alphas[i]\n", "            x, y = alphas[i], alphas[j]\n            anticomm_ij = x @ y + y @ x\n"))
R(LIB, "is_matchgate", ("    if np.allclose(det_inner, det_corner):\n        if verbose:\n", "    matches = np.allclose(det_inner, det_corner)\n    if matches:\n        if verbose:\n"))
R(LIB, "is_matchgate", ("    corner_matrix = np.array([[M[0, 0], M[0, 3]], [M[3, 0], M[3, 3]]])\n    inner_matrix = M[1:3, 1:3]\n    det_inner = np.linalg.det(inner_matrix)\n    det_corner = np.linalg.det(corner_matrix)\n", "    det_inner = np.linalg.det(M[1:3, 1:3])\n    det_corner = np.linalg.det(M[np.ix_([0, 3], [0, 3])])\n"))
R(LIB, "is_matchgate", ("    det_inner = np.linalg.det(inner_matrix)\n    det_corner = np.linalg.det(corner_matrix)\n", "    det_inner = M[1, 1] * M[2, 2] - M[1, 2] * M[2, 1]\n    det_corner = M[0, 0] * M[3, 3] - M[0, 3] * M[3, 0]\n"))
R(LIB, "eigh_sp", ("    Omega_dag = Omega.conj().T\n    ih = 1j * Omega @ H @ Omega_dag\n", "    Omega_dag = np.conj(Omega).T\n    ih = 1j * (Omega @ H @ Omega_dag)\n"))
# ------------------------------------------------------------------------------------------------ ff_combinatorics
R(CB, "sgn", ("    sign = 1\n    inversions = 0\n    for i in range(len(permutation)):\n        for j in range(i + 1, len(permutation)):\n            if permutation[i] > permutation[j]:\n                inversions += 1\n    sign = 1 if inversions % 2 == 0 else -1\n    return sign",
  "    sign = 1\n    n = len(permutation)\n    for i in range(n):\n        for j in range(i + 1, n):\n            if permutation[i] > permutation[j]:\n                sign = -sign\n    return sign"))
R(CB, "sgn", ("    for i in range(len(permutation)):\n        for j in range(i + 1, len(permutation)):\n            if permutation[i] > permutation[j]:\n                inversions += 1\n    sign = 1 if inversions % 2 == 0 else -1\n    return sign",
  "    n = len(permutation)\n    inversions = sum(1 for i in range(n) for j in range(i + 1, n) if permutation[i] > permutation[j])\n    return (-1) ** inversions"))
R(CB, "sgn", ("        for j in range(i + 1, len(permutation)):\n            if permutation[i] > permutation[j]:\n                inversions += 1\n", "        for j in range(i):\n            if permutation[j] > permutation[i]:\n                inversions += 1\n"))
R(CB, "pf", ("        prod = 1\n        for i in range(n_edges):\n            prod *= A[perm[2 * i], perm[2 * i + 1]]\n        pf_sum += sgn(perm) * prod\n", "        prod = sgn(perm)\n        for i in range(n_edges):\n            prod = prod * A[perm[2 * i], perm[2 * i + 1]]\n        pf_sum += prod\n"))
R(CB, "pf", ("    return pf_sum / (2 ** n_edges * math.factorial(n_edges))", "    norm = 2 ** n_edges * math.factorial(n_edges)\n    return pf_sum / norm"), ("    perms = itertools.permutations(range(n_verts))\n", ""), ("for perm in perms:", "for perm in itertools.permutations(range(n_verts)):"))
R(CB, "hf", ("        prod = 1\n        for i in range(n_edges):\n            prod *= A[perm[2 * i], perm[2 * i + 1]]\n        hf_sum += prod\n", "        hf_sum += np.prod([A[perm[2 * i], perm[2 * i + 1]] for i in range(n_edges)])\n"))
R(CB, "hf", ("        prod = 1\n        for i in range(n_edges):\n            prod *= A[perm[2 * i], perm[2 * i + 1]]\n        hf_sum += prod\n", "        hf_sum += _pair_product(A, perm, n_edges)\n"), pre="def _pair_product(A, perm, n_edges):\n    prod = 1\n    for i in range(n_edges):\n        prod *= A[perm[2 * i], perm[2 * i + 1]]\n    return prod\n\n\n")
R(CB, "pt", ("        prod = 1\n        for i in range(n):\n            prod *= A[i, perm[i]]\n        pt_sum += prod\n", "        prod = 1\n        for i, p in enumerate(perm):\n            prod *= A[i, p]\n        pt_sum += prod\n"))
R(CB, "pt", ("    n = len(A)\n", "    n = A.shape[0]\n"), ("            prod *= A[i, perm[i]]\n", "            prod *= A[perm[i], i]\n"))
R(CB, "dt", ("        prod = 1\n        for i in range(n):\n            prod *= A[i, perm[i]]\n        dt_sum += sgn(perm) * prod\n", "        sign = sgn(perm)\n        prod = 1\n        for i in range(n):\n            prod *= A[i, perm[i]]\n        dt_sum = dt_sum + sign * prod\n"))
R(CB, "dt", ("            prod *= A[i, perm[i]]\n", "            prod *= A[i][perm[i]]\n"))
R(CB, "dt_eigen", ("        eigenvalues = np.linalg.eigvals(A)\n        determinant = np.prod(eigenvalues)\n        return determinant\n", "        return np.prod(np.linalg.eigvals(A))\n"))
# ------------------------------------------------------------------------------------------------ ff_utils
R(UT, "kron_plus", ("    Z01 = np.zeros((a.shape[0], b.shape[1]))\n    Z10 = np.zeros((b.shape[0], a.shape[1]))\n    return np.block([[a, Z01], [Z10, b]])", "    upper_right = np.zeros((a.shape[0], b.shape[1]))\n    lower_left = np.zeros((b.shape[0], a.shape[1]))\n    top = np.hstack((a, upper_right))\n    bottom = np.hstack((lower_left, b))\n    return np.vstack((top, bottom))"))
R(UT, "kron_plus", ("    Z01 = np.zeros((a.shape[0], b.shape[1]))\n    Z10 = np.zeros((b.shape[0], a.shape[1]))\n    return np.block([[a, Z01], [Z10, b]])", "    m, n = a.shape\n    r, c = b.shape\n    out = np.zeros((m + r, n + c), dtype=np.result_type(a, b, float))\n    out[:m, :n] = a\n    out[m:, n:] = b\n    return out"))
R(UT, "partial_trace_diagblocksum", ("    for j in range(d2):\n        col_idx = j\n        row_idx = j\n        j0 = row_idx * d\n        j1 = j0 + d\n        i0 = col_idx * d\n        i1 = i0 + d\n        A += AB[i0:i1, j0:j1]\n", "    for j in range(d2):\n        block = slice(j * d, (j + 1) * d)\n        A += AB[block, block]\n"))
R(UT, "partial_trace_diagblocksum", ("    assert int(D / d) == D / d, 'd_out must divide D'\n    d2 = int(D / d)\n", "    assert D % d == 0, 'd_out must divide D'\n    d2 = D // d\n"))
R(UT, "partial_trace_diagblocksum", ("        A += AB[i0:i1, j0:j1]\n", "        A = A + AB[i0:i1, j0:j1]\n"), ("        col_idx = j\n        row_idx = j\n        j0 = row_idx * d\n", "        j0 = j * d\n"), ("        i0 = col_idx * d\n", "        i0 = j * d\n"))
R(UT, "partial_trace_blockTr", ("            B[i, j] = np.trace(AB[i0:i1, j0:j1])\n", "            block = AB[i0:i1, j0:j1]\n            B[i, j] = sum(block[k, k] for k in range(d1))\n"))
R(UT, "partial_trace_blockTr", ("            col_idx = i\n            row_idx = j\n            i0 = col_idx * d1\n            i1 = i0 + d1\n            j0 = row_idx * d1\n            j1 = j0 + d1\n            B[i, j] = np.trace(AB[i0:i1, j0:j1])\n", "            B[i, j] = np.trace(AB[i * d1:(i + 1) * d1, j * d1:(j + 1) * d1])\n"))
R(UT, "partial_trace_blockTr", ("    if np.allclose(B.imag, np.zeros_like(B)):\n        B = B.real\n    return B", "    return B.real if np.allclose(B.imag, 0) else B"))
R(UT, "cast_to_pdf", ("    if np.allclose(pdf, pdf.real):\n        pdf = pdf.real\n    else:\n        raise ValueError('Probability distribution has non-negligible imaginary part')\n    return pdf", "    if not np.allclose(pdf, pdf.real):\n        raise ValueError('Probability distribution has non-negligible imaginary part')\n    return pdf.real"))
R(UT, "cast_to_pdf", ("    pdf = np.diag(rho)\n", "    pdf = rho.diagonal()\n"))
R(UT, "cast_to_density_matrix", ("    if len(rho.shape) == 1 or min(rho.shape) == 1:\n", "    is_vector = rho.ndim == 1 or min(rho.shape) == 1\n    if is_vector:\n"), ("            rho = rho.reshape(-1, 1)\n            rho = rho @ rho.conj().T\n", "            rho = np.outer(rho_flat, rho_flat.conj())\n"))
R(UT, "cast_to_density_matrix", ("    if len(rho.shape) != 2 or rho.shape[0] != rho.shape[1]:\n", "    if not (len(rho.shape) == 2 and rho.shape[0] == rho.shape[1]):\n"), ("    assert np.all(np.linalg.eigvalsh(rho) >= -1e-12), ", "    eigenvalues = np.linalg.eigvalsh(rho)\n    assert np.all(eigenvalues >= -1e-12), "))
R(UT, "cast_to_density_matrix", ("    assert np.allclose(1, np.trace(rho)), 'Generated state is not normalized'\n    assert np.allclose(rho, rho.conj().T), 'Generated state is not hermitian'\n    assert np.all(np.linalg.eigvalsh(rho) >= -1e-12), 'Generated state is not positive semidefinite'\n    return rho",
  "    return _checked(rho)"), pre="def _checked(rho):\n    assert np.allclose(1, np.trace(rho)), 'Generated state is not normalized'\n    assert np.allclose(rho, rho.conj().T), 'Generated state is not hermitian'\n    assert np.all(np.linalg.eigvalsh(rho) >= -1e-12), 'Generated state is not positive semidefinite'\n    return rho\n\n\n")
R(UT, "generate_random_bitstring", ("    if k < 0 or k > n:\n        return None\n", "    if not 0 <= k <= n:\n        return None\n"), ("    indices = np.random.choice(n, size=k, replace=False)\n    bitstring[indices] = 1\n", "    bitstring[np.random.choice(n, size=k, replace=False)] = 1\n"))
R(UT, "generate_random_bitstring", ("    bitstring[indices] = 1\n", "    for idx in indices:\n        bitstring[idx] = 1\n"))
R(UT, "clean", ("            if np.all(np.abs(obj.imag) < threshold):\n                return np.round(obj.real, ndigits)\n", "            small = np.abs(obj.imag) < threshold\n            if small.all():\n                return np.round(obj.real, ndigits)\n"))
R(UT, "clean", ("        obj_array = np.array(obj)\n        obj_array = np.round(obj_array, ndigits)\n        obj_array[np.abs(obj_array) < threshold] = 0\n        return obj_array.tolist()\n", "        rounded = np.round(np.array(obj), ndigits)\n        rounded[np.abs(rounded) < threshold] = 0\n        return rounded.tolist()\n"))
R(UT, "clean", ("        if abs(obj.imag) < threshold:\n            return np.round(obj.real, ndigits)\n        else:\n            return np.round(obj, ndigits)\n", "        value = obj.real if abs(obj.imag) < threshold else obj\n        return np.round(value, ndigits)\n"))
R(UT, "formatted_output", ("        if isinstance(obj, complex):\n            if abs(obj.imag) < 1e-10:\n                return f'{obj.real:.{precision}f}'\n            else:\n                return f'{obj.real:.{precision}f} + {obj.imag:.{precision}f}j'\n        else:\n            return f'{obj:.{precision}f}'\n", "        if not isinstance(obj, complex):\n            return f'{obj:.{precision}f}'\n        real_part = f'{obj.real:.{precision}f}'\n        if abs(obj.imag) < 1e-10:\n            return real_part\n        return real_part + f' + {obj.imag:.{precision}f}j'\n"))
R(UT, "_print", ("        val = np.array(obj)\n", "        val = np.asarray(obj)\n"), ("    p = np.get_printoptions()['precision']\n", "    saved = np.get_printoptions()\n    p = saved['precision']\n"))
R(UT, "_print", ("        if np.allclose(val.imag, np.zeros_like(val)):\n            val = val.real\n        np.set_printoptions(precision=k)\n", "        np.set_printoptions(precision=k)\n        if np.allclose(val.imag, 0):\n            val = val.real\n"))
# ------------------------------------------------------------------------------------------------ ff_distance_measures
R(DM, "renyi_entropy", ("    log_sum = np.log(np.sum(np.abs(p / p_max) ** a)) + a * np.log(p_max)\n    return log_sum / (1 - a)", "    scaled = np.abs(p / p_max)\n    total = np.sum(scaled ** a)\n    return (np.log(total) + a * np.log(p_max)) / (1 - a)"))
R(DM, "renyi_entropy", ("    if a == 1:\n        return entropy(p)\n    if a == 0:\n        return np.log(np.count_nonzero(p))\n", "    if a == 0:\n        return np.log(np.count_nonzero(p))\n    elif a == 1:\n        return entropy(p)\n"))
R(DM, "linear_entropy", ("    l2_squared = np.linalg.norm(p, ord=2) ** 2\n    sL = 1 - l2_squared\n", "    purity = np.sum(p ** 2)\n    sL = 1 - purity\n"))
R(DM, "linear_entropy", ("    l2_squared = np.linalg.norm(p, ord=2) ** 2\n    sL = 1 - l2_squared\n", "    sL = 1 - np.dot(p, p)\n"))
R(DM, "total_variation_distance", ("    dtrace = 0.5 * np.sum(np.abs(p - q))\n    return dtrace", "    return np.abs(p - q).sum() / 2"))
R(DM, "total_variation_distance", ("    dtrace = 0.5 * np.sum(np.abs(p - q))\n    return dtrace", "    return 0.5 * np.linalg.norm(p - q, ord=1)"))
R(DM, "trace_distance", ("    evals = np.linalg.eigvals(diff)\n    return 0.5 * np.sum(abs(evals))", "    return 0.5 * np.sum(np.abs(np.linalg.eigvals(diff)))"))
R(DM, "trace_distance", ("    evals = np.linalg.eigvals(diff)\n    return 0.5 * np.sum(abs(evals))", "    evals = np.linalg.eigvalsh(diff)\n    return 0.5 * np.sum(abs(evals))"))
R(DM, "relative_entropy", ("    dkl = entropy(p, qk=q)\n    return dkl", "    return entropy(p, q)"))
R(DM, "bhattacharyya_coeff", ("    bc = np.sum(np.sqrt(p * q))\n    return bc", "    return np.sum(np.sqrt(p) * np.sqrt(q))"))
R(DM, "bhattacharyya_coeff", ("    bc = np.sum(np.sqrt(p * q))\n    return bc", "    overlap = np.sqrt(q * p)\n    return overlap.sum()"))
R(DM, "jensen_shannon_divergence", ("    m = 0.5 * (p + q)\n    djs = 0.5 * (entropy(p, qk=m) + entropy(q, qk=m))\n", "    m = (p + q) / 2\n    djs = (entropy(p, qk=m) + entropy(q, qk=m)) / 2\n"))
R(DM, "stabilizer_distribution", ("    pauli_group = generate_pauli_group(n_qubits)\n    xi = np.zeros(len(pauli_group))\n    for j, Pj in enumerate(pauli_group):\n        expectP = np.trace(Pj @ rho)\n", "    pauli_group = generate_pauli_group(n_qubits)\n    xi = np.zeros(len(pauli_group))\n    for j in range(len(pauli_group)):\n        expectP = np.trace(pauli_group[j] @ rho)\n"))
R(DM, "stabilizer_distribution", ("        xi[j] = expectP * expectP / d\n", "        xi[j] = expectP ** 2 / d\n"))
R(DM, "stabilizer_distribution", ("        xi[j] = expectP * expectP / d\n", "        xi[j] = expectP * expectP\n"), ("    if not np.allclose(np.sum(xi), 1):\n", "    xi = xi / d\n    if not np.allclose(np.sum(xi), 1):\n"))
R(DM, "SRE", ("    if np.nonzero(xi)[0].size == 1:\n", "    if np.count_nonzero(xi) == 1:\n"))
R(DM, "cov_distribution", ("    for i in range(2 * n_sites):\n        for j in range(i, 2 * n_sites):\n            if abs(Lc[i, j]) > 1e-10:\n                eigenvalues.append(Lc[i, j])\n    pm = np.square(eigenvalues)\n    return pm", "    dim = 2 * n_sites\n    for i in range(dim):\n        for j in range(i, dim):\n            value = Lc[i, j]\n            if abs(value) > 1e-10:\n                eigenvalues.append(value)\n    return np.square(eigenvalues)"))
R(DM, "cov_distribution", ("    eigenvalues = []\n    for i in range(2 * n_sites):\n        for j in range(i, 2 * n_sites):\n            if abs(Lc[i, j]) > 1e-10:\n                eigenvalues.append(Lc[i, j])\n    pm = np.square(eigenvalues)\n", "    eigenvalues = [Lc[i, j] for i in range(2 * n_sites) for j in range(i, 2 * n_sites) if abs(Lc[i, j]) > 1e-10]\n    pm = np.array(eigenvalues) ** 2\n"))
R(DM, "FAF", ("    FAF = n_sites - np.linalg.norm(pm, k) ** k\n    return FAF", "    total = np.sum(np.abs(pm) ** k)\n    return n_sites - total"))
# ------------------------------------------------------------------------------------------------ ff_random_states
R(RS, "random_qubit_state", ("    s = np.random.dirichlet(np.ones(2 ** n))\n    U = unitary_group.rvs(dim=2 ** n)\n    rho = cast_to_density_matrix(U @ np.diag(s) @ U.conj().T)\n    return rho", "    dim = 2 ** n\n    s = np.random.dirichlet(np.ones(dim))\n    U = unitary_group.rvs(dim=dim)\n    return cast_to_density_matrix((U * s) @ U.conj().T)"))
R(RS, "random_qubit_state", ("    rho = cast_to_density_matrix(U @ np.diag(s) @ U.conj().T)\n    return rho", "    rho = U @ np.diag(s) @ U.conj().T\n    return cast_to_density_matrix(rho)"))
R(RS, "random_qubit_pure_state", ("    zero_state = np.zeros((2 ** n, 1), dtype=complex)\n    zero_state[0, 0] = 1\n    psi = U @ zero_state\n", "    psi = U[:, [0]]\n"))
R(RS, "random_qubit_pure_state", ("    if not isinstance(n, int):\n        raise TypeError(f'Number of qubits must be an integer, got {type(n).__name__}')\n    if n <= 0:\n        raise ValueError(f'Number of qubits must be positive, got {n}')\n", "    _check_size(n)\n"), pre="def _check_size(n):\n    if not isinstance(n, int):\n        raise TypeError(f'Number of qubits must be an integer, got {type(n).__name__}')\n    if n <= 0:\n        raise ValueError(f'Number of qubits must be positive, got {n}')\n\n\n")
R(RS, "random_FF_state_randH", ("    rho = expm(-H_op)\n    rho = rho / np.trace(rho)\n    return rho", "    rho = expm(-H_op)\n    return rho / rho.trace()"), ("    rescale = 2 ** (2 - n_sites)\n    G = build_V(n_sites, A, Z) * rescale\n", "    G = 2 ** (2 - n_sites) * build_V(n_sites, A, Z)\n"))
R(RS, "random_FF_state_rotPDF", ("    rho = W_op @ np.diag(s) @ W_op.conj().T\n    if returnS:\n        return (rho, s)\n    return rho", "    rho = W_op @ np.diag(s) @ W_op.conj().T\n    return (rho, s) if returnS else rho"))
R(RS, "random_FF_pure_state_W0", ("    zero_state[0] = 1\n", "    zero_state[0, 0] = 1\n"))
R(RS, "random_FF_pure_state_WN", ("    K = np.append(np.ones(N), np.zeros(n_sites - N))\n", ""), ("        if K[j] == 1:\n", "        if j < N:\n"))
R(RS, "random_FF_pure_state_WN", ("    for j in np.flip(range(n_sites)):\n        if K[j] == 1:\n            psi = alphas[j] @ psi\n", "    for j in range(N - 1, -1, -1):\n        psi = alphas[j] @ psi\n"))
R(RS, "random_FF_pure_state_CN", ("    Y = np.random.randn(2 ** n_sites, 1)\n    Y = Y / np.linalg.norm(Y)\n", "    Y = np.random.randn(2 ** n_sites, 1)\n    Y /= np.linalg.norm(Y)\n"))
R(RS, "get_orthogonal_vectors", ("    A = np.hstack((v_hat, np.eye(n)[:, 1:]))\n", "    rest = np.eye(n)[:, 1:]\n    A = np.concatenate((v_hat, rest), axis=1)\n"))
R(RS, "build_unitary_path", ("    U = np.zeros((n, n), dtype=complex)\n    for i in range(n):\n        v_in = np.reshape(W[:, i], (n, 1))\n        v_out = np.reshape(V[:, i], (n, 1))\n        U = U + v_out @ v_in.conj().T\n", "    U = V @ W.conj().T\n"))
R(RS, "build_linear_path", ("        return (s * v + (1 - s) * w) / np.linalg.norm(s * v + (1 - s) * w)\n", "        point = s * v + (1 - s) * w\n        return point / np.linalg.norm(point)\n"))
R(RS, "build_linear_path", ("        return (s * v + (1 - s) * w) / np.linalg.norm(s * v + (1 - s) * w)\n", "        point = w + s * (v - w)\n        return point / np.linalg.norm(point)\n"))
# ------------------------------------------------------------------------------------------------ ff_graph_theory
R(GT, "generate_random_planar_graph", ("        G = nx.gnm_random_graph(n, random.randint(n - 1, 2 * n - 3))\n        if nx.check_planarity(G)[0] and nx.is_connected(G):\n            return G\n", "        n_edges = random.randint(n - 1, 2 * n - 3)\n        G = nx.gnm_random_graph(n, n_edges)\n        is_planar, _embedding = nx.check_planarity(G)\n        if is_planar and nx.is_connected(G):\n            return G\n"))
R(GT, "complete_face", ("    e = skip_list.pop()\n    if e[0] > e[1]:\n        prefix = -1\n    else:\n        prefix = 1\n    u = min(e[0], e[1])\n    v = max(e[0], e[1])\n    if sign == -1:\n        pfo[u, v] = prefix\n        pfo[v, u] = prefix\n    else:\n        pfo[u, v] = -1 * prefix\n        pfo[v, u] = -1 * prefix\n", "    e = skip_list.pop()\n    prefix = -1 if e[0] > e[1] else 1\n    u, v = min(e), max(e)\n    value = prefix if sign == -1 else -prefix\n    pfo[u, v] = value\n    pfo[v, u] = value\n"))
R(GT, "count_perfect_matchings_planar", ("    pfoA = np.multiply(pfo, A)\n    pfoA = np.triu(pfoA)\n    pfoA = pfoA - pfoA.T\n", "    upper = np.triu(pfo * A)\n    pfoA = upper - upper.T\n"))
R(GT, "find_perfect_matchings_brute", ("        nodes_in_matching = set()\n        for u, v in combination:\n            nodes_in_matching.add(u)\n            nodes_in_matching.add(v)\n        if len(nodes_in_matching) == n:\n", "        covered = {x for edge in combination for x in edge}\n        if len(covered) == n:\n"))
R(GT, "dual_graph_H", ("    face_edges = []\n    for f in F:\n        face_edges.append([tuple(sorted(e)) for e in f])\n", "    face_edges = [[tuple(sorted(e)) for e in f] for f in F]\n"))
R(GT, "faces", ("    for face in faces:\n        if max_face is None:\n            max_face = face\n        elif len(face) > len(max_face):\n            max_face = face\n", "    for face in faces:\n        if max_face is None or len(face) > len(max_face):\n            max_face = face\n"))

# ------------------------------------------------------------------------------------------------ second series
# appended to tools/refactors.py TABLE
CHK = "    if not isinstance(n_sites, int):\n        raise TypeError(f'Number of sites must be an integer, got {type(n_sites).__name__}')\n    if n_sites <= 0:\n        raise ValueError(f'Number of sites must be positive, got {n_sites}')\n"
CHKF = "def %s(n_sites):\n" + CHK + "\n\n"
SEED = "    if seed is not None:\n        np.random.seed(seed)\n"
SEEDF = "def %s(seed):\n" + SEED + "\n\n"
R(RS, "random_FF_state_randH", (CHK, "    _require_sites_h(n_sites)\n"), pre=CHKF % "_require_sites_h")
R(RS, "random_FF_state_randH", (SEED, "    _apply_seed_h(seed)\n"), ("    A = np.random.randn(n_sites, n_sites)\n    A = A + 1j * np.random.randn(n_sites, n_sites)\n    Z = np.random.randn(n_sites, n_sites)\n    Z = Z + 1j * np.random.randn(n_sites, n_sites)\n", "    A = _cgauss(n_sites)\n    Z = _cgauss(n_sites)\n"), pre=SEEDF % "_apply_seed_h" + "def _cgauss(n):\n    re = np.random.randn(n, n)\n    im = np.random.randn(n, n)\n    return re + 1j * im\n\n\n")
R(RS, "random_FF_state_rotPDF", (CHK, "    _require_sites_r(n_sites)\n"), ("    rho = W_op @ np.diag(s) @ W_op.conj().T\n", "    rho = (W_op * s) @ W_op.conj().T\n"), pre=CHKF % "_require_sites_r")
R(RS, "random_FF_state_rotPDF", ("    W_op = random_FF_rotation(n_sites)\n", "    dim = 2 ** n_sites\n    W_op = random_FF_rotation(n_sites)\n"), ("np.eye(2 ** n_sites)", "np.eye(dim)"), ("np.ones(2 ** n_sites)", "np.full(dim, 1.0)"), ("    if returnS:\n        return (rho, s)\n    return rho", "    return (rho, s) if returnS else rho"))
R(RS, "random_FF_pure_state_W0", ("    psi = W_op @ zero_state\n", "    psi = W_op[:, :1]\n"), ("    zero_state = np.zeros((2 ** n_sites, 1), dtype=complex)\n    zero_state[0] = 1\n", ""))
R(RS, "random_FF_pure_state_W0", (CHK, "    _require_sites_w(n_sites)\n"), ("np.zeros((2 ** n_sites, 1), dtype=complex)", "np.zeros((1 << n_sites, 1), dtype=np.complex128)"), pre=CHKF % "_require_sites_w")
R(RS, "random_FF_pure_state_CN", (CHK, "    _require_sites_c(n_sites)\n"), ("    Y = Y / np.linalg.norm(Y)\n", "    Y /= np.linalg.norm(Y)\n"), ("    vac = vac / np.linalg.norm(vac)\n    psi = vac\n", "    psi = vac / np.linalg.norm(vac)\n"), pre=CHKF % "_require_sites_c")
R(RS, "random_FF_pure_state_CN", ("    K = np.append(np.ones(N), np.zeros(n_sites - N))\n", ""), ("    for j in np.flip(range(n_sites)):\n        if K[j] == 1:\n            psi = rand_alphas[j] @ psi\n", "    for j in reversed(range(N)):\n        psi = rand_alphas[j] @ psi\n"), ("    S = compute_algebra_S(jordan_wigner_alphas(n_sites))\n", "    bare = jordan_wigner_alphas(n_sites)\n    S = compute_algebra_S(bare)\n"))
R(RS, "get_orthogonal_vectors", ("    if len(v.shape) == 1:\n        v = v.reshape(-1, 1)\n", "    if v.ndim == 1:\n        v = v[:, np.newaxis]\n"), ("np.eye(n)[:, :n]", "np.eye(n)"))
R(RS, "get_orthogonal_vectors", ("    orthogonal_vectors = np.hstack((v_hat, Q[:, 1:]))\n    return orthogonal_vectors\n", "    Q = Q.copy()\n    Q[:, [0]] = v_hat\n    return Q\n"))
R(RS, "build_unitary_path", ("    U = np.zeros((n, n), dtype=complex)\n    for i in range(n):\n        v_in = np.reshape(W[:, i], (n, 1))\n        v_out = np.reshape(V[:, i], (n, 1))\n        U = U + v_out @ v_in.conj().T\n", "    U = V @ W.conj().T\n    U = U.astype(complex)\n"))
R(RS, "build_unitary_path", ("    if len(w.shape) == 1:\n        w = w.reshape(-1, 1)\n    if len(v.shape) == 1:\n        v = v.reshape(-1, 1)\n    w = w / np.linalg.norm(w)\n    v = v / np.linalg.norm(v)\n", "    w = _unit_column(w)\n    v = _unit_column(v)\n"), ("    H = 1j * Z @ np.diag(np.log(np.diag(T))) @ Z.conj().T\n", "    phases = np.log(np.diag(T))\n    H = (1j * Z * phases) @ Z.conj().T\n"), pre="def _unit_column(x):\n    if len(x.shape) == 1:\n        x = x.reshape(-1, 1)\n    return x / np.linalg.norm(x)\n\n\n")
R(RS, "random_qubit_pure_state", ("    zero_state = np.zeros((2 ** n, 1), dtype=complex)\n    zero_state[0, 0] = 1\n    psi = U @ zero_state\n", "    psi = U[:, [0]]\n"))
R(CB, "dt_eigen", ("        rows, cols = A.shape\n        if rows != cols:\n            print('Input matrix must be square.')\n            return None\n        eigenvalues = np.linalg.eigvals(A)\n        determinant = np.prod(eigenvalues)\n        return determinant\n", "        if A.shape[0] == A.shape[1]:\n            return np.prod(np.linalg.eigvals(A))\n        print('Input matrix must be square.')\n        return None\n"))
R(CB, "pt", ("        prod = 1\n        for i in range(n):\n            prod *= A[i, perm[i]]\n        pt_sum += prod\n", "        prod = 1\n        for i, j in enumerate(perm):\n            prod = prod * A[i, j]\n        pt_sum = pt_sum + prod\n"))
R(DM, "relative_entropy", ("    p = cast_to_pdf(p)\n    q = cast_to_pdf(q)\n    dkl = entropy(p, qk=q)\n    return dkl\n", "    return entropy(cast_to_pdf(p), cast_to_pdf(q))\n"))
R(DM, "jensen_shannon_divergence", ("    djs = 0.5 * (entropy(p, qk=m) + entropy(q, qk=m))\n    return djs\n", "    total = 0.0\n    for x in (p, q):\n        total += entropy(x, qk=m)\n    return total / 2\n"))
R(DM, "jensen_shannon_divergence", ("    djs = 0.5 * (entropy(p, qk=m) + entropy(q, qk=m))\n    return djs\n", "    left = relative_entropy(p, m)\n    right = relative_entropy(q, m)\n    return 0.5 * (left + right)\n"))
R(DM, "SRE", ("    if np.nonzero(xi)[0].size == 1:\n", "    if np.count_nonzero(xi) == 1:\n"), ("    d = rho.shape[0]\n", ""), ("np.log(d)", "np.log(len(rho))"))
R(DM, "FAF", ("    FAF = n_sites - np.linalg.norm(pm, k) ** k\n    return FAF\n", "    weight = np.sum(pm ** k)\n    return n_sites - weight\n"))
R(DM, "FAF", ("    n_sites = int(np.log2(rho.shape[0]))\n", "    n_sites = rho.shape[0].bit_length() - 1\n"))
R(LIB, "correlation_matrix", ("    N = rho.shape[0]\n    n_sites = int(np.round(np.log2(N)))\n    alphas = jordan_wigner_alphas(n_sites)\n    return compute_2corr_matrix(rho, n_sites, alphas, conjugation=None)\n", "    n_sites = int(round(np.log2(len(rho))))\n    return compute_2corr_matrix(rho, n_sites, jordan_wigner_alphas(n_sites))\n"))
R(LIB, "eigh_sp", ("    phasesU = np.diag(U).conj()\n    for i in range(len(phasesU)):\n        if abs(phasesU[i]) > 1e-09:\n            phasesU[i] = phasesU[i] / abs(phasesU[i])\n        else:\n            phasesU[i] = 1\n    U = U @ np.diag(phasesU)\n", "    phasesU = np.ones(2 * n_sites, dtype=complex)\n    for i, z in enumerate(np.diag(U)):\n        if abs(z) > 1e-09:\n            phasesU[i] = np.conj(z) / abs(z)\n    U = U * phasesU\n"))
R(LIB, "eigh_sp", ("        evs_l = []\n        for i in range(n_sites):\n            evs_l.append(L[2 * i, 2 * i + 1])\n        evs_l = np.array(evs_l)\n", "        evs_l = np.array([L[k, k + 1] for k in range(0, 2 * n_sites, 2)])\n"), ("                Flips[2 * i, 2 * i + 1] = 1\n                Flips[2 * i + 1, 2 * i] = 1\n                Flips[2 * i, 2 * i] = 0\n                Flips[2 * i + 1, 2 * i + 1] = 0\n", "                a, b = 2 * i, 2 * i + 1\n                Flips[a, a] = Flips[b, b] = 0\n                Flips[a, b] = Flips[b, a] = 1\n"))
R(LIB, "eigv_sp", ("    Id = np.eye(n_sites)\n    Zero = np.zeros_like(Id)\n    S = np.block([[Zero, Id], [Id, Zero]])\n", "    S = np.kron(np.array([[0, 1], [1, 0]]), np.eye(n_sites))\n"))
R(LIB, "eigm_sp_can", ("        P_mat = None\n        id = np.eye(2)\n        x = np.matrix([[0, 1], [1, 0]])\n        if evs_a_p[0] > 0:\n            P_mat = x\n        else:\n            P_mat = id\n        for k in range(1, n_sites):\n            if evs_a_p[k] > 0:\n                P_mat = kron_plus(P_mat, x)\n            else:\n                P_mat = kron_plus(P_mat, id)\n", "        eye2 = np.eye(2)\n        swap = np.matrix([[0, 1], [1, 0]])\n        blocks = [swap if e > 0 else eye2 for e in evs_a_p]\n        P_mat = blocks[0]\n        for block in blocks[1:]:\n            P_mat = kron_plus(P_mat, block)\n"))
R(GT, "generate_random_planar_graph", ("        G = nx.gnm_random_graph(n, random.randint(n - 1, 2 * n - 3))\n        if nx.check_planarity(G)[0] and nx.is_connected(G):\n            return G\n", "        n_edges = random.randint(n - 1, 2 * n - 3)\n        candidate = nx.gnm_random_graph(n, n_edges)\n        if not nx.is_connected(candidate):\n            continue\n        planar, _ = nx.check_planarity(candidate)\n        if planar:\n            return candidate\n"))
R(GT, "complete_face", ("    for e in edges:\n        if e[0] > e[1]:\n            prefix = -1\n        else:\n            prefix = 1\n        u = min(e[0], e[1])\n        v = max(e[0], e[1])\n        if np", "    for e in edges:\n        prefix, u, v = _oriented(e)\n        if np"), ("    if e[0] > e[1]:\n        prefix = -1\n    else:\n        prefix = 1\n    u = min(e[0], e[1])\n    v = max(e[0], e[1])\n    if sign == -1:\n        pfo[u, v] = prefix\n        pfo[v, u] = prefix\n    else:\n        pfo[u, v] = -1 * prefix\n        pfo[v, u] = -1 * prefix\n", "    prefix, u, v = _oriented(e)\n    value = prefix if sign == -1 else -prefix\n    pfo[u, v] = pfo[v, u] = value\n"), pre="def _oriented(e):\n    a, b = e\n    if a > b:\n        return -1, b, a\n    return 1, a, b\n\n\n")
R(GT, "count_perfect_matchings_planar", ("    pfoA = np.multiply(pfo, A)\n    pfoA = np.triu(pfoA)\n    pfoA = pfoA - pfoA.T\n    return clean(np.sqrt(dt_eigen(pfoA)), 10)\n", "    upper = np.triu(pfo * A)\n    det = dt_eigen(upper - upper.T)\n    return clean(np.sqrt(det), 10)\n"))
R(GT, "find_perfect_matchings_brute", ("        nodes_in_matching = set()\n        for u, v in combination:\n            nodes_in_matching.add(u)\n            nodes_in_matching.add(v)\n        if len(nodes_in_matching) == n:\n            perfect_matchings.append(combination)\n", "        if len(set(itertools.chain.from_iterable(combination))) == n:\n            perfect_matchings.append(combination)\n"))
R(GT, "find_perfect_matchings_brute", ("    perfect_matchings = []\n", ""), ("    for combination in itertools.combinations(all_edges, n // 2):\n        nodes_in_matching = set()\n        for u, v in combination:\n            nodes_in_matching.add(u)\n            nodes_in_matching.add(v)\n        if len(nodes_in_matching) == n:\n            perfect_matchings.append(combination)\n    return perfect_matchings\n", "    return [c for c in itertools.combinations(all_edges, n // 2) if len({x for e in c for x in e}) == n]\n"))
R(GT, "faces", ("    max_face = None\n    for face in faces:\n        if max_face is None:\n            max_face = face\n        elif len(face) > len(max_face):\n            max_face = face\n", "    max_face = max(faces, key=len)\n"), ("        fverts = []\n        for e in face:\n            fverts.append(e[0])\n            fverts.append(e[1])\n        fverts = list(set(fverts))\n        fverts.sort()\n        if outer", "        fverts = sorted({x for e in face for x in e})\n        if outer"))
R(GT, "faces", ("    edgeset = set()\n    for u, v in graph.edges:\n        edgeset.add((u, v))\n        edgeset.add((v, u))\n", "    edgeset = {(u, v) for u, v in graph.edges} | {(v, u) for u, v in graph.edges}\n"), ("        neighbors = emb[v]\n        next_node = neighbors[u]['cw']\n        e = (v, next_node)\n", "        e = (v, emb[v][u]['cw'])\n"))
R(GT, "pfo_algorithm", ("    for e in T.edges():\n        u = min(e[0], e[1])\n        v = max(e[0], e[1])\n        orientation[u, v] = 1\n        orientation[v, u] = -1\n", "    for a, b in T.edges():\n        u, v = (a, b) if a < b else (b, a)\n        orientation[u, v] = 1\n        orientation[v, u] = -1\n"), ("        leaves = [x for x in H.nodes() if H.degree(x) == 1 and x != root]\n        if len(leaves) == 0:\n            break\n", "        leaves = [x for x in H.nodes() if x != root and H.degree(x) == 1]\n        if not leaves:\n            break\n"))
R(GT, "pfo_algorithm", ("    orientation = nx.adjacency_matrix(graph).toarray()\n    orientation = orientation * 99j\n", "    orientation = 99j * nx.to_numpy_array(graph)\n"), ("            face = F[leaf]\n            complete_face(orientation, face)\n            H.remove_node(leaf)\n            if verbose:\n                plot_planar_embedding(graph, np.real(orientation), title='Face {}: {}'.format(leaf, face))\n", "            complete_face(orientation, F[leaf])\n            H.remove_node(leaf)\n            if verbose:\n                plot_planar_embedding(graph, np.real(orientation), title='Face {}: {}'.format(leaf, F[leaf]))\n"))
R(GT, "compute_tree_depth", ("    root = list(graph.nodes())[0]\n    depths = nx.single_source_shortest_path_length(graph, root)\n    return max(depths.values())\n", "    root = next(iter(graph.nodes()))\n    return max(nx.single_source_shortest_path_length(graph, root).values())\n"))


def apply(d, rnd):
    seen, done = {}, []
    for f, func, edits, pre in TABLE:
        k = seen.get((f, func), 0)
        seen[(f, func)] = k + 1
        if k != rnd:
            continue
        p = f"{d}/src/ff/{f}"
        src = open(p).read()
        node = next(n for n in ast.parse(src).body if isinstance(n, ast.FunctionDef) and n.name == func)
        lines = src.splitlines(keepends=True)
        body = list(node.body)
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            node.body = body[1:]
        s = ast.unparse(node) + "\n"
        for old, new in edits:
            assert s.count(old) == 1, (func, rnd, s.count(old), old, s)
            s = s.replace(old, new)
        s = pre + s
        out = "".join(lines[:node.lineno - 1]) + s + "".join(lines[node.end_lineno:])
        compile(out, f, "exec")
        open(p, "w").write(out)
        done.append(func)
    return done


if __name__ == "__main__":
    n = max(sum(1 for t in TABLE if t[:2] == u[:2]) for u in TABLE)
    if sys.argv[1] == "n":
        print(n, len(TABLE))
        sys.exit()
    r = int(sys.argv[1])
    d = f"/tmp/ref/{r}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("__pycache__", ".git"))
    print("edited:", apply(d, r), flush=True)
    env = dict(os.environ, VERIF_REPO=d, MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    subprocess.run(["python3-vt", "/verif/vc/main.py"] + sys.argv[2:], env=env)
    if os.environ.get("RT"):
        subprocess.run(["/opt/venv/bin/python", "/verif/rt/run.py", "all"], env=env)
