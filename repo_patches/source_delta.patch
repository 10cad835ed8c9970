From 0ca2288fe6cf1b62758bee9af807db3408dcad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 01/15] fix: compute_cov_matrix infers an integer number of
 sites

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index cbdaf5f..a4d9b6a 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -810,7 +810,7 @@ def compute_cov_matrix(rho, n_sites=None, alphas=None):
     """
     if n_sites is None:
         N = rho.shape[0]
-        n_sites = np.round(np.log2(N))
+        n_sites = int(np.round(np.log2(N)))
 
     if alphas is None:
         alphas = jordan_wigner_alphas(n_sites)
-- 
2.43.0


From c83fce604240692d37020fbd588040f856e64ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 02/15] fix: kron_plus builds the direct sum of rectangular
 matrices

---
 src/ff/ff_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 65801dc..99371eb 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -185,7 +185,8 @@ def kron_plus(a, b):
         Direct sum matrix [[a, 0], [0, b]]
     """
     Z01 = np.zeros((a.shape[0], b.shape[1]))
-    return np.block([[a, Z01], [Z01.T, b]])
+    Z10 = np.zeros((b.shape[0], a.shape[1]))
+    return np.block([[a, Z01], [Z10, b]])
 
 
 def cast_to_pdf(rho):
-- 
2.43.0


From 43e24b17db9f7985febfef0f27a63e06f830a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 03/15] fix: permutation_to_matrix rejects lists with repeated
 entries

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index a4d9b6a..31b3a07 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -38,7 +38,7 @@ def permutation_to_matrix(permutation):
     n = len(permutation)
     matrix = np.zeros((n, n), dtype=int)
     for i in range(n):
-        if 0 <= permutation[i] < n:
+        if 0 <= permutation[i] < n and not matrix[permutation[i]].any():
             matrix[permutation[i], i] = 1
         else:
             print("Invalid permutation")
-- 
2.43.0


From ac59b62ddbd3d59e9bec53148c1ce2de35a3d667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 04/15] fix: generate_random_planar_graph honours seed=0

---
 src/ff/ff_graph_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index e2098f7..397a427 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -187,7 +187,7 @@ def generate_random_planar_graph(n, seed=None):
         Returns None if a planar graph with n nodes cannot be generated
         within a reasonable number of attempts.
     """
-    if seed:
+    if seed is not None:
         random.seed(seed)
 
     max_attempts = 1000  # Limit the number of attempts to find a planar graph
-- 
2.43.0


From 85ea712ef0cb5e8b22e250aa9c21df4c264758a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 05/15] fix: random_FF_state(pure=True, returnH=True) returns
 the generator of the returned state

---
 src/ff/ff_lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 31b3a07..7ab2ccc 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -472,7 +472,8 @@ def random_FF_state(n_sites, fixedN=False, seed=None, returnH=False, pure=False)
 
     if pure:
         # For pure states, apply Haar random unitary to vacuum state
-        W_op = random_FF_rotation(n_sites, seed=seed)
+        H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
+        W_op = expm(-1j * H_op)
         zero_state = np.zeros((2**n_sites, 1), dtype=complex)
         zero_state[0, 0] = 1  # Set the first element to 1 (ground state)
         psi = W_op @ zero_state
@@ -481,8 +482,7 @@ def random_FF_state(n_sites, fixedN=False, seed=None, returnH=False, pure=False)
         assert np.allclose(1, np.linalg.norm(psi))
 
         if returnH:
-            # Get the generator that produced this unitary
-            H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
+            # Return the generator that produced this unitary
             return psi, H_op
         else:
             return psi
-- 
2.43.0


From 9d70cdd4949f71f1c7792344ea1fb33ab7569c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 06/15] fix: dual_graph_H finds edges whose end points are
 listed in descending order

---
 src/ff/ff_graph_theory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 397a427..e0b2d38 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -277,6 +277,7 @@ def dual_graph_H(G, F, T):
 
     # go through edges missing from tree
     for e in edges_not_in_t:
+        e = tuple(sorted(e))
         u = None
         v = None
 
-- 
2.43.0


From 756299db90db144af15bc1a6d3e05fc62f2cb32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:51 +0000
Subject: [PATCH 07/15] fix: count_perfect_matchings_planar returns 0 for an
 odd number of nodes

---
 src/ff/ff_graph_theory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index e0b2d38..af1d4b3 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -488,6 +488,10 @@ def count_perfect_matchings_planar(graph):
         return 0
         # Trivial case, no non-zero matchings
 
+    if len(graph) % 2 != 0:
+        return 0.0
+        # An odd number of nodes has no perfect matching
+
     A = nx.adjacency_matrix(graph).toarray()
 
     # run the pfo algorithm
-- 
2.43.0


From c29c19685e70865ec4a827c44f482d62b679bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:51 +0000
Subject: [PATCH 08/15] fix: count_perfect_matchings_planar handles arbitrary
 node labels and orders

---
 src/ff/ff_graph_theory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index af1d4b3..a8800e2 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -492,6 +492,9 @@ def count_perfect_matchings_planar(graph):
         return 0.0
         # An odd number of nodes has no perfect matching
 
+    # the pfo is indexed by node label, the adjacency matrix by node order
+    graph = nx.convert_node_labels_to_integers(graph)
+
     A = nx.adjacency_matrix(graph).toarray()
 
     # run the pfo algorithm
-- 
2.43.0


From e67e732cff5ec470963b181ba8a3c181a228495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:51 +0000
Subject: [PATCH 09/15] fix: count_perfect_matchings_planar handles
 disconnected graphs

---
 src/ff/ff_graph_theory.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index a8800e2..5877041 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -492,6 +492,13 @@ def count_perfect_matchings_planar(graph):
         return 0.0
         # An odd number of nodes has no perfect matching
 
+    # the pfo needs a connected graph, so match each component on its own
+    if not nx.is_connected(graph):
+        count = 1.0
+        for nodes in nx.connected_components(graph):
+            count *= count_perfect_matchings_planar(graph.subgraph(nodes))
+        return count
+
     # the pfo is indexed by node label, the adjacency matrix by node order
     graph = nx.convert_node_labels_to_integers(graph)
 
-- 
2.43.0


From 3f6a979b67ff7d99d52631a068fbcdf3498b7bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 10/15] fix: generate_gaussian_state reads a 2n x 2n matrix as
 coefficients for n <= 2

---
 src/ff/ff_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 7ab2ccc..6136fd6 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -734,8 +734,8 @@ def generate_gaussian_state(n_sites, H, alphas=None):
 
     if H.shape[0] == 2 * n_sites:
         H_op = build_op(n_sites, H, alphas)
-
-    if H.shape[0] == 2**n_sites:
+    # for n_sites <= 2 both sizes agree: H is then the coefficient matrix
+    elif H.shape[0] == 2**n_sites:
         H_op = H
 
     if H_op is None:
-- 
2.43.0


From d26442419b46e481eb430cf7615e0ee6bc3d6e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 11/15] fix: eigm_sp_can keeps the 2x2 blocks together when G
 is singular

---
 src/ff/ff_lib.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 6136fd6..2e477ea 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -1243,8 +1243,14 @@ def eigm_sp_can(G):
 
     iG = -G.imag
 
+    # we want the non-zero eigenvalue to appear first, so that the zero
+    # eigenvalues of a singular G do not split up the 2x2 blocks
+    def sfunction(x, y=None):
+        z = x if y is None else x + y * 1j
+        return abs(z) > 1e-10
+
     # from scipy.linalg
-    [L, O] = schur(iG)
+    [L, O, _] = schur(iG, sort=sfunction)
 
     # we will sort the states according to eigenvalues of A
 
-- 
2.43.0


From f2e3c969389aff2ec6405afa0969b858591fff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:02 +0000
Subject: [PATCH 12/15] fix: cast_to_density_matrix reads distributions near a
 single outcome as distributions

Their 2-norm is within the tolerance of one, so they were taken for state
vectors and every entropy of them was computed from the squared entries.
---
 src/ff/ff_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 99371eb..64ae736 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -227,8 +227,14 @@ def cast_to_density_matrix(rho):
         l1_norm = np.linalg.norm(rho_flat, ord=1)
         l2_norm = np.linalg.norm(rho_flat, ord=2)
 
+        # Both norms of a distribution close to a single outcome are close to 1:
+        # non-negative entries then follow the norm that is matched better
+        is_pdf = np.all(rho_flat == np.abs(rho_flat)) and (
+            abs(l1_norm - 1) < abs(l2_norm - 1)
+        )
+
         # Determine if it's a wavefunction or probability distribution
-        if np.allclose(l2_norm, 1):
+        if np.allclose(l2_norm, 1) and not is_pdf:
             # Treated as normalized wavefunction
             rho = rho.reshape(-1, 1)  # Ensure column vector
             rho = rho @ rho.conj().T
-- 
2.43.0


From 9c4a70c2961d917922b659597a435579f6de1a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 13/15] fix: keep powers of large orders in range in
 renyi_entropy

---
 src/ff/ff_distance_measures.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_distance_measures.py b/src/ff/ff_distance_measures.py
index 7ec7d3e..2606548 100644
--- a/src/ff/ff_distance_measures.py
+++ b/src/ff/ff_distance_measures.py
@@ -311,10 +311,12 @@ def renyi_entropy(p, a):
         return -np.log(np.max(p))
 
     # General case: α-Rényi entropy
-    # S_α(p) = (1/(1-α)) * log(||p||_α^α) where ||p||_α is the α-norm
-    l_a = np.linalg.norm(p, ord=a)
+    # S_α(p) = (1/(1-α)) * log(Σ p_i^α), with the largest entry factored out
+    # of the sum so that its powers stay within the floating-point range
+    p_max = np.linalg.norm(p, ord=np.inf)
+    log_sum = np.log(np.sum(np.abs(p / p_max) ** a)) + a * np.log(p_max)
 
-    return np.log(l_a) * (a / (1 - a))
+    return log_sum / (1 - a)
 
 
 def linear_entropy(p):
-- 
2.43.0


From c8bacbdc55fafc45d048456fea5652bcf9119a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 14/15] fix: build_unitary_path takes the logarithm from the
 Schur form of the unitary

---
 src/ff/ff_random_states.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_random_states.py b/src/ff/ff_random_states.py
index 45b6d04..892aa76 100644
--- a/src/ff/ff_random_states.py
+++ b/src/ff/ff_random_states.py
@@ -17,7 +17,7 @@ Copyright 2025 James.D.Whitfield@dartmouth.edu
 """
 
 import numpy as np
-from scipy.linalg import expm, logm
+from scipy.linalg import expm, schur
 from scipy.stats import unitary_group
 
 from .ff_lib import (
@@ -727,8 +727,10 @@ def build_unitary_path(w, v):
 
     assert np.allclose(U @ U.conj().T, np.eye(n)), "U is not unitary"
 
-    # Compute the Hermitian matrix of U
-    H = 1j * logm(U)
+    # Compute the Hermitian matrix of U; U is normal, so its complex Schur form is
+    # diagonal (logm is inaccurate for repeated eigenvalues at the branch cut -1)
+    T, Z = schur(U, output="complex")
+    H = 1j * Z @ np.diag(np.log(np.diag(T))) @ Z.conj().T
 
     assert np.allclose(
         H - H.conj().T, 0
-- 
2.43.0


From 9a2cab74753816127b63b22ec98aee1d75d25611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:57 +0000
Subject: [PATCH 15/15] fix: build_op and rotate_operators accept operators of
 any numeric type

Accumulating into an array of the type of the first operator raised
UFuncTypeError for real or integer operators with complex or fractional
coefficients.
---
 src/ff/ff_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 2e477ea..ea7a770 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -312,7 +312,7 @@ def _perform_rotation(C, alphas, verbose=False):
     b_ops = []
 
     for j in range(n):
-        b_j = np.zeros_like(alphas[0])  # initialize jth rotated operator
+        b_j = np.zeros_like(alphas[0], dtype=complex)  # initialize jth rotated operator
 
         if verbose:
             print("\nj", j, "\n----")
@@ -775,7 +775,7 @@ def build_op(n_sites, R, alphas, verbose=None, direct=False):
         print("R incorrectly formmatted. Use `build_H` to create R")
 
     # N-body operators
-    R_op = np.zeros_like(alphas[0])
+    R_op = np.zeros_like(alphas[0], dtype=complex)
 
     for i in range(2 * n_sites):
         for j in range(2 * n_sites):
-- 
2.43.0

