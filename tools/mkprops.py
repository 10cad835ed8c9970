#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text has one source)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
L="src/ff/ff_lib.py";U="src/ff/ff_utils.py";C="src/ff/ff_combinatorics.py";G="src/ff/ff_graph_theory.py";D="src/ff/ff_distance_measures.py";R="src/ff/ff_random_states.py"
p("C01","Jordan-Wigner operators obey the canonical anticommutation relations",
 "For every number of sites n >= 1, jordan_wigner_lowering returns n matrices of size 2^n x 2^n with {a_i,a_j} = 0 and {a_i,a_j^dagger} = delta_ij * 1 that all annihilate the first basis vector, a_i carrying sigma_z on the sites before i, the lowering matrix (sigma_x + i sigma_y)/2 on site i and the identity after it. jordan_wigner_alphas(n) is the list of the n adjoints a_0^dagger..a_{n-1}^dagger followed by a_0..a_{n-1}. The 2n operators of jordan_wigner_majoranas(n) are Hermitian, equal (a_j + a_j^dagger)/sqrt(2) for j < n and -i(a_k - a_k^dagger)/sqrt(2) after that, and satisfy {gamma_i,gamma_j} = delta_ij * 1.",
 ["inputs"],"every number of sites n and every pair of operator indices",
 "The tests sample n = 1..4 and a few index pairs; the relations are claimed for every n and a change can be wrong only for larger n or for particular pairs of sites.",
 [L],[("jordan_wigner_lowering",L+":jordan_wigner_lowering"),("jordan_wigner_alphas",L+":jordan_wigner_alphas"),("jordan_wigner_majoranas",L+":jordan_wigner_majoranas"),("pauli_matrices",L+":pauli_matrices")],observe=["return values"])
p("C02","Quadratic coefficient matrices have the documented block structure",
 "For every n and all coefficient matrices A and B, build_H(n,A,B) is the complex 2n x 2n matrix [[-conj(A), B],[-conj(B), A]] and build_V(n,A,Z) is [[-conj(Z), A],[-conj(A), Z]], with an omitted second matrix meaning zero; neither discards an imaginary part, also when the other argument is real or integer. kitaev_chain(n,mu,t,delta) is build_H of the matrices with -mu on the diagonal of A, -t on its first off-diagonals, and +delta above / -delta below the diagonal of B, and random_H_generator returns a Hermitian matrix of build_H form (with zero pairing block if fixedN). Hence for Hermitian A and antisymmetric B the result of build_H is Hermitian and particle-hole symmetric.",
 ["inputs"],"every n, every pair of real, integer or complex matrices A, B, every mu, t, delta, every seed",
 "Tests use a few 2x2 and 3x3 matrices, mostly real; the block formula must hold entry by entry for every size and every numeric type.",
 [L],[("build_H",L+":build_H"),("build_V",L+":build_V"),("kitaev_chain",L+":kitaev_chain"),("random_H_generator",L+":random_H_generator")])
p("C03","Operator lifts and rotations are the documented linear combinations",
 "build_op(n,R,alphas) equals the sum over all i,j of R_ij alpha_i^dagger alpha_j, and with direct=True the sum of R_ij alpha_i alpha_j, where only coefficients smaller than 1e-10 in magnitude may be dropped. rotate_operators(C,alphas) returns, for every j, the sum over i of C_ji alpha_i, with Left=True the sum over i of conj(C_ij) alpha_i, where only coefficients below 1e-9 may be dropped, and it accepts its two arguments in either order. The verbose flags never change a result.",
 ["inputs"],"every number of sites, every coefficient matrix, every list of operators, both flags",
 "Tests compare a handful of Hamiltonians on 1 to 3 sites; the sums must be complete for every size, including coefficients that are negative, imaginary or just above the cut-off.",
 [L],[("build_op",L+":build_op"),("rotate_operators",L+":rotate_operators"),("_perform_rotation",L+":_perform_rotation")])
p("C04","Basis-change matrices are unitary and map the orderings they name",
 "For every n: build_Omega(n) is the unitary matrix (1/sqrt 2)[[1,1],[i1,-i1]]; build_reordering_xx_to_xp(n) is the permutation matrix with ones exactly at (i,2i) and (n+i,2i+1); build_K(n) is unitary and equals diag(1,..,1,-i,..,-i) P (1_n (x) w) Omega with w = [[1,-i],[i,-1]]/sqrt 2 and P the reordering. permutation_to_matrix(p) has a one at (p[i],i) and zeros elsewhere for every permutation p of 0..n-1, and returns None for every list of integers that is not a permutation.",
 ["inputs"],"every number of sites n, every integer list p",
 "Tests look at n up to 3 and a few permutations; the identities must hold for every n, and every invalid list must be rejected.",
 [L],[("build_Omega",L+":build_Omega"),("build_reordering_xx_to_xp",L+":build_reordering_xx_to_xp"),("build_K",L+":build_K"),("permutation_to_matrix",L+":permutation_to_matrix")])
p("C05","Symplectic diagonalisation reconstructs its input with a canonical unitary",
 "For every valid coefficient matrix H (A Hermitian, B antisymmetric, including degenerate and zero-mode spectra) eigh_sp returns [L,U] with U unitary and of canonical form [[s,conj(t)],[t,conj(s)]], L = U^dagger H U diagonal and real, and lower-right block minus the upper-left one. eigv_sp(V) returns a U of the same kind with U^T V U equal to the returned matrix, whose only non-zero blocks are off-diagonal; eigm_sp(G) and eigm_sp_can(G) return real orthogonal O with O^T G O equal to the returned matrix, which for eigm_sp is [[0,D],[-D,0]] with D diagonal and for eigm_sp_can a direct sum of 2x2 antisymmetric blocks.",
 ["inputs"],"every number of sites and every valid coefficient matrix, degenerate and singular ones included",
 "Tests use a few random or Kitaev matrices; degenerate, singular, rescaled and sign-structured inputs take different paths through sorting, block flipping and phase fixing.",
 [L],[("eigh_sp",L+":eigh_sp"),("eigv_sp",L+":eigv_sp"),("eigm_sp",L+":eigm_sp"),("eigm_sp_can",L+":eigm_sp_can")])
p("C06","Moment matrices are the documented traces for every state",
 "For every operator rho and every list of 2n operators, compute_2corr_matrix has entries Tr[rho a_i a_j] by default, Tr[rho a_i a_j^dagger] for conjugation True or positive and Tr[rho a_i^dagger a_j] for negative integers, and compute_cov_matrix has entries Tr[rho a_i a_j] - Tr[rho a_j a_i]; both use the Jordan-Wigner operators in [raising, lowering] order when none are given. correlation_matrix(rho) is the default two-point matrix with the number of sites inferred from the size of rho, and compute_cov_matrix infers it the same way. compute_algebra_S returns S with {a_i,a_j} = S_ij * 1 for every list of an even number of operators whose anticommutators are scalar.",
 ["inputs"],"every density matrix or operator, number of sites, operator list and conjugation flag",
 "Tests check shapes and symmetries on a few small states; the entries must be right for every state, in particular ones that are not real, not Gaussian or do not conserve parity.",
 [L],[("compute_2corr_matrix",L+":compute_2corr_matrix"),("compute_cov_matrix",L+":compute_cov_matrix"),("correlation_matrix",L+":correlation_matrix"),("compute_algebra_S",L+":compute_algebra_S")])
p("C07","Gaussian and free-fermion mixed states are normalised exponentials",
 "generate_gaussian_state(n,H) equals exp(-X)/Tr exp(-X), with X = build_op(n,H,alphas) when H is 2n x 2n (also where 2n = 2^n) and X = H when H is 2^n x 2^n, and is Hermitian, positive semidefinite and of trace one whenever X is Hermitian. random_FF_state returns a density matrix (or with pure=True a unit vector) and, with returnH=True, the Hermitian generator of exactly the returned state: rho = exp(-beta G)/Tr for some beta >= 0, psi = exp(-iG)|0>; with fixedN the generator commutes with the particle number. random_FF_state_randH and random_FF_state_rotPDF return density matrices; the latter is W diag(s) W^dagger for a free-fermion rotation W and the returned probability vector s.",
 ["inputs","configurations"],"every number of sites, every Hermitian generator, every seed or unseeded state of the generator, every flag combination",
 "Tests draw a few seeded states for 1 to 3 sites; the relation between the returned state and returned generator is not compared, and each flag combination is sampled at most once.",
 [L,R],[("generate_gaussian_state",L+":generate_gaussian_state"),("random_FF_state",L+":random_FF_state"),("random_FF_rotation",L+":random_FF_rotation"),("random_FF_state_randH",R+":random_FF_state_randH"),("random_FF_state_rotPDF",R+":random_FF_state_rotPDF")])
p("C08","Structure predicates decide exactly the property they are named for",
 "For every 2n x 2n matrix U, is_symp(U) returns True if and only if U S U^T equals S = [[0,1],[1,0]] within numpy's default closeness, whether or not U is in canonical form. check_canonical_form(L) returns True if and only if L is square of even size, real, skew-symmetric and zero outside the 2x2 blocks on the diagonal; is_matchgate(M) returns True if and only if M is 4x4 and the determinant of its inner 2x2 block equals the determinant of its four corners, all within numpy's default closeness.",
 ["inputs"],"every matrix, of any size, real or complex",
 "A predicate has infinitely many inputs on both sides; tests show it a few members and a few non-members.",
 [L],[("is_symp",L+":is_symp"),("check_canonical_form",L+":check_canonical_form"),("is_matchgate",L+":is_matchgate")])
p("C09","Pfaffian, hafnian, permanent, determinant and sign match their definitions",
 "For every list of distinct numbers, sgn returns (-1)^(number of inversions). For every square matrix A of size N, pt and dt are the sums over all N! permutations s of the product of A[i,s(i)], dt with the sign of s; pf and hf are zero for odd N and otherwise the sums over all permutations of the products of A[s(2i),s(2i+1)] divided by 2^(N/2) (N/2)!, pf with the sign of s; lists are accepted like arrays. dt_eigen is the determinant for every square array and None for a non-square one.",
 ["inputs"],"every matrix size and every real or complex entry",
 "Tests compare sizes 2, 3 and 4 with known values; the formulas are claimed for every size and for complex, non-symmetric and singular matrices.",
 [C],[("sgn",C+":sgn"),("pf",C+":pf"),("hf",C+":hf"),("pt",C+":pt"),("dt",C+":dt"),("dt_eigen",C+":dt_eigen")])
p("C10","Perfect matching counts are exact",
 "For every undirected planar graph with at least one node, with positive edge weights (default 1), any node labels, any node and edge order, connected or not, count_perfect_matchings and count_perfect_matchings_planar return the sum over perfect matchings of the product of the edge weights, up to rounding. find_perfect_matchings_brute returns, for a graph with at most 15 nodes, every perfect matching exactly once as a tuple of edges and nothing else; for non-planar graphs of at most 15 nodes count_perfect_matchings is the number of those.",
 ["inputs"],"every graph, labelling, node order, edge order and positive weighting",
 "Tests use a handful of named graphs whose labels are 0..n-1 in order; correctness of the Kasteleyn construction is a statement about all planar graphs and embeddings.",
 [G],[("count_perfect_matchings",G+":count_perfect_matchings"),("count_perfect_matchings_planar",G+":count_perfect_matchings_planar"),("find_perfect_matchings_brute",G+":find_perfect_matchings_brute"),("pfo_algorithm",G+":pfo_algorithm")])
p("C11","The Pfaffian ordering orients every inner face oddly",
 "For every connected planar graph on nodes 0..n-1 (n >= 2), pfo_algorithm returns an n x n matrix with an entry +1 or -1 at (min,max) of every edge and 0 off the edges, such that every face of the embedding but the last one has an odd number of edges oriented along its traversal (entry -1 at (min,max) orients the edge from min to max, +1 from max to min). faces(graph, embedding) traverses every directed edge exactly once, split into closed walks, and dual_graph_H has one vertex per face and, for a spanning tree T, an edge between the two faces of each edge outside T, which makes it a tree. complete_face, given a face with exactly one unassigned edge, assigns that edge alone, at both positions, so that the product of the signs along the face is -1, and leaves a face with no unassigned edge unchanged.",
 ["inputs","histories"],"every connected planar graph and embedding, every face and partial orientation",
 "Tests check shapes and a few small graphs; the sign rule depends on edge direction, edge order in the face and on bridges, and the number of embeddings is unbounded.",
 [G],[("pfo_algorithm",G+":pfo_algorithm"),("complete_face",G+":complete_face"),("faces",G+":faces"),("dual_graph_H",G+":dual_graph_H")])
p("C12","Direct sums and partial traces are exact for all block sizes",
 "kron_plus(a,b) is the block matrix [[a,0],[0,b]] for all matrices a and b, rectangular ones included. For every matrix AB of size (d1*d2) x (d1*d2), partial_trace_over_1(AB,d2) has entries sum_j AB[j*d2+p, j*d2+q] and partial_trace_over_2(AB,d1) has entries sum_k AB[i*d2+k, j*d2+k]; a d that does not divide the size raises AssertionError. Hence both preserve the trace and map a Kronecker product of X and Y to Tr(X) Y and Tr(Y) X.",
 ["inputs"],"every pair of dimensions and every real or complex matrix",
 "Tests use qubit-sized subsystems of equal dimension; index mistakes show up only for unequal dimensions or non-symmetric matrices.",
 [U],[("kron_plus",U+":kron_plus"),("partial_trace_diagblocksum",U+":partial_trace_diagblocksum"),("partial_trace_blockTr",U+":partial_trace_blockTr")])
p("C13","State casting accepts exactly valid states and returns the right one",
 "cast_to_density_matrix maps a vector (1-D, row or column) of unit 2-norm to |v><v|, a vector of unit 1-norm but not unit 2-norm to diag(v), and a square matrix to itself, always as a complex matrix; it raises ValueError for vectors of neither norm and for non-square arrays, and AssertionError unless the result has trace one, is Hermitian and has no eigenvalue below -1e-12. cast_to_pdf returns the real diagonal of that density matrix.",
 ["inputs"],"every vector or matrix, real or complex, valid or not",
 "Tests present a few valid states and a few invalid ones; acceptance must coincide with validity for every input, near-miss states included.",
 [U],[("cast_to_density_matrix",U+":cast_to_density_matrix"),("cast_to_pdf",U+":cast_to_pdf")])
p("C14","Entropies and divergences of distributions follow their formulas",
 "For all probability vectors p, q of equal length: renyi_entropy(p,a) is log(sum p_i^a)/(1-a) for a > 0 other than 1, the Shannon entropy for a = 1, log of the support size for a = 0 and -log max p for a = infinity; linear_entropy is 1 - sum p_i^2 (and rejects lengths that are not perfect squares). relative_entropy is sum p_i log(p_i/q_i), with the value infinity when q vanishes where p does not; jensen_shannon_divergence is the mean relative entropy of p and q to their midpoint, total_variation_distance is half the 1-norm of p-q and bhattacharyya_coeff is sum sqrt(p_i q_i). They also accept density matrices and unit vectors through their diagonal.",
 ["inputs"],"every pair of distributions, zero entries and unequal supports included, every order a >= 0",
 "Tests check two- and three-point distributions and inequalities; formulas must hold for every length, order and support pattern.",
 [D],[("renyi_entropy",D+":renyi_entropy"),("linear_entropy",D+":linear_entropy"),("relative_entropy",D+":relative_entropy"),("jensen_shannon_divergence",D+":jensen_shannon_divergence"),("total_variation_distance",D+":total_variation_distance"),("bhattacharyya_coeff",D+":bhattacharyya_coeff")])
p("C15","Pauli group, stabilizer distribution and stabilizer entropy are exact",
 "generate_pauli_group(n) lists all 4^n n-fold tensor products of I, X, Y, Z in lexicographic order with the rightmost factor varying fastest; it raises TypeError for a non-integer n and ValueError for n <= 0. For every n-qubit state, stabilizer_distribution(rho)[j] = Tr[P_j rho]^2 / (2^n Tr rho^2) in that order, so it is non-negative and sums to one. SRE(rho,a) is renyi_entropy of that distribution of order a minus log 2^n, and 0 if the distribution has a single non-zero entry.",
 ["inputs"],"every number of qubits, every pure or mixed state, every order a",
 "Tests check one- and two-qubit stabilizer states; order, completeness and normalisation are claims for all n and all states.",
 [L,D],[("generate_pauli_group",L+":generate_pauli_group"),("stabilizer_distribution",D+":stabilizer_distribution"),("SRE",D+":SRE")])
p("C16","Trace distance, covariance distribution and FAF follow their formulas",
 "trace_distance(A,B) is half the sum of the absolute eigenvalues of A-B for all states A, B. cov_distribution(rho) is the list of squared moduli of the non-zero eigenvalue pairs (one entry per pair) of the real antisymmetric Majorana covariance matrix M_ij = -i Tr[rho (g_i g_j - g_j g_i)], and FAF(rho,k) equals n - (1/2) Tr (M^T M)^k for every k >= 1; thus FAF is zero for pure Gaussian states and n for the maximally mixed state.",
 ["inputs"],"every state of every number of sites, every order k",
 "Tests check a few two-site states with k = 2; eigenvalue pairing, zero modes and other k are unsampled.",
 [D],[("trace_distance",D+":trace_distance"),("cov_distribution",D+":cov_distribution"),("FAF",D+":FAF")])
p("C17","Random generators return valid objects for every size and seed",
 "For every n >= 1 and every seed: random_FF_rotation returns a unitary 2^n x 2^n matrix (returnOrb: a unitary canonical symplectic 2n x 2n matrix); the random pure states (qubit, Clifford, free-fermion W0, WN, CN) are unit column vectors of dimension 2^n, and random_qubit_state and the mixed free-fermion states are density matrices. The random-state functions of ff_random_states raise TypeError for a non-integer size, ValueError for a size below one, and random_FF_pure_state_WN raises ValueError for a particle number that is not an integer in 0..n. generate_random_bitstring(n,k) has exactly k ones and n-k zeros, or is None if k is outside 0..n; generate_random_planar_graph(n) (n >= 2) is a connected planar graph with n nodes or None.",
 ["inputs","configurations"],"every size, every particle number, every seed and every state of the global generators",
 "Tests draw a few samples for one to three sites; validity must hold for every draw.",
 [L,R,U,G],[("random_FF_rotation",L+":random_FF_rotation"),("random_qubit_state",R+":random_qubit_state"),("random_qubit_pure_state",R+":random_qubit_pure_state"),("random_CHP_state",R+":random_CHP_state"),("random_FF_pure_state_W0",R+":random_FF_pure_state_W0"),("random_FF_pure_state_WN",R+":random_FF_pure_state_WN"),("random_FF_pure_state_CN",R+":random_FF_pure_state_CN"),("generate_random_bitstring",U+":generate_random_bitstring"),("generate_random_planar_graph",G+":generate_random_planar_graph")])
p("C18","A seed determines the result",
 "Every random function that takes a seed (random_FF_rotation, random_FF_state, random_H_generator, random_qubit_state, random_qubit_pure_state, random_FF_state_randH, random_FF_state_rotPDF, random_FF_pure_state_W0/WN/CN, generate_random_planar_graph) returns, for every seed value including 0 and every combination of its other arguments, a result that depends only on its arguments: two calls with the same arguments agree whatever random numbers were drawn before, between or after. Without a seed the generators are left unseeded, so consecutive calls continue the global stream.",
 ["histories","inputs","configurations"],"every seed, every flag combination and every history of earlier draws from the global generators",
 "Tests repeat a call with seed 42 right after the first; they cannot cover histories of the global generator, seed 0 or every flag combination.",
 [L,R,G],[("seeding",L+":random_FF_rotation"),("seeding",R+":random_FF_pure_state_CN"),("seeding",G+":generate_random_planar_graph")],state=[dict(name="numpy and random global generators",meaning="hidden state every draw advances",where="numpy.random, random")])
p("C19","State paths join their end points on the unit sphere",
 "For all non-zero vectors w and v of equal dimension n >= 2, build_unitary_path(w,v) is a function with path(0) = w/|w| and path(1) = v/|v| whose value has unit norm for every real t. build_linear_path(w,v)(s) is (s v + (1-s) w)/norm of that, for the normalised w and v, wherever that sum is not zero. get_orthogonal_vectors(v) is a unitary n x n matrix with first column v/|v| for every v whose norm is not within numpy's default closeness of 0, and the identity for v = 0.",
 ["inputs"],"every pair of real or complex vectors of any dimension, every parameter value",
 "Tests use two or three real vectors and t in {0, 0.5, 1}; complex, parallel, antiparallel and sparse vectors are unsampled.",
 [R],[("build_unitary_path",R+":build_unitary_path"),("build_linear_path",R+":build_linear_path"),("get_orthogonal_vectors",R+":get_orthogonal_vectors")])
p("C20","Cleaning rounds to the requested precision and changes nothing else",
 "clean(x, t), where d = t if t is a Python int and otherwise the nearest integer to -log10 t, rounds every entry of a Python scalar, list or array to d decimals, drops the imaginary part exactly if all imaginary parts are below the threshold in magnitude, zeroes entries of lists and of arrays that stay complex whose rounded magnitude is below the threshold, and raises TypeError for unsupported types. formatted_output writes Python numbers (numpy's float64 and complex128 are such) with exactly the requested number of decimals and omits an imaginary part below 1e-10. print_custom restores numpy's print options.",
 ["inputs"],"every number, list and array and every threshold",
 "Tests clean a few values at the default threshold; mixed magnitudes, integer thresholds and non-power-of-ten thresholds are mostly unsampled.",
 [U],[("clean",U+":clean"),("formatted_output",U+":formatted_output"),("_print",U+":_print")])
p("C21","Library functions never modify their arguments",
 "No public function changes an array, list or graph it is given, on any path, including failing ones and verbose ones; the only exception is complete_face, which updates the ordering matrix it returns. Results never share memory that later calls overwrite, so repeating a call on the same arguments gives the same result for every deterministic function.",
 ["inputs","histories"],"every deterministic or random public function, every argument and every sequence of calls",
 "No test compares arguments before and after a call; in-place accumulation, views and cached results are invisible to single-call assertions.",
 [L,U,C,G,D,R],[("functional style: fresh arrays for every result",L+":build_op"),("np.asarray without later writes",U+":cast_to_density_matrix"),("H.remove_node only on the dual graph",G+":pfo_algorithm")])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P:
    assert len(x['title'])<=80,x['id']
