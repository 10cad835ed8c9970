import Mathlib.LinearAlgebra.Matrix.ConjTranspose
import Mathlib.LinearAlgebra.Matrix.Trace
import Mathlib.LinearAlgebra.Matrix.Kronecker
import Mathlib.LinearAlgebra.Matrix.DotProduct
import Mathlib.Data.Complex.Basic
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Tactic

/-! Lemmas over the contracts of /verif/vc.  Each is named in the contract or in DESIGN.md where it is used. -/

open Matrix Finset

namespace FF

/-! ### Jordan-Wigner chains (C01)

`chain f` is the Kronecker product `f 0 ⊗ f 1 ⊗ … ⊗ f (n-1)`, with the digits of the row and column numbers as indices. -/

variable {n : ℕ}

abbrev Q := Matrix (Fin 2) (Fin 2) ℂ
abbrev Op (n : ℕ) := Matrix (Fin n → Fin 2) (Fin n → Fin 2) ℂ

def chain (f : Fin n → Q) : Op n := fun x y => ∏ i, f i (x i) (y i)

theorem chain_mul (f g : Fin n → Q) : chain f * chain g = chain (fun i => f i * g i) := by
  ext x y
  simp only [Matrix.mul_apply, chain]
  rw [Finset.prod_univ_sum, Fintype.piFinset_univ]
  exact Finset.sum_congr rfl fun z _ => (Finset.prod_mul_distrib).symm

theorem chain_adj (f : Fin n → Q) : (chain f)ᴴ = chain (fun i => (f i)ᴴ) := by
  ext x y
  simp [chain, Matrix.conjTranspose_apply]

theorem chain_one : chain (fun _ : Fin n => (1 : Q)) = 1 := by
  ext x y
  simp only [chain]
  by_cases h : x = y
  · subst h; simp
  · rw [Matrix.one_apply_ne h]
    obtain ⟨i, hi⟩ := Function.ne_iff.mp h
    exact Finset.prod_eq_zero (Finset.mem_univ i) (Matrix.one_apply_ne hi)

theorem chain_neg (f g : Fin n → Q) (i : Fin n) (hi : f i = - g i) (h : ∀ k, k ≠ i → f k = g k) : chain f = - chain g := by
  ext x y
  simp only [chain, Matrix.neg_apply]
  rw [← Finset.mul_prod_erase Finset.univ (fun i => f i (x i) (y i)) (Finset.mem_univ i), ← Finset.mul_prod_erase Finset.univ (fun i => g i (x i) (y i)) (Finset.mem_univ i), hi]
  rw [Finset.prod_congr rfl (fun k hk => by rw [h k (Finset.ne_of_mem_erase hk)])]
  simp

theorem chain_add (f g e : Fin n → Q) (i : Fin n) (hi : f i + g i = e i) (hf : ∀ k, k ≠ i → f k = e k) (hg : ∀ k, k ≠ i → g k = e k) :
    chain f + chain g = chain e := by
  ext x y
  simp only [chain, Matrix.add_apply]
  rw [← Finset.mul_prod_erase Finset.univ (fun i => f i (x i) (y i)) (Finset.mem_univ i), ← Finset.mul_prod_erase Finset.univ (fun i => g i (x i) (y i)) (Finset.mem_univ i),
    ← Finset.mul_prod_erase Finset.univ (fun i => e i (x i) (y i)) (Finset.mem_univ i), ← hi]
  rw [Finset.prod_congr rfl (fun k hk => by rw [hf k (Finset.ne_of_mem_erase hk)]),
    Finset.prod_congr (f := fun k => g k (x k) (y k)) rfl (fun k hk => by rw [hg k (Finset.ne_of_mem_erase hk)])]
  simp [add_mul]

def Z : Q := !![1, 0; 0, -1]
def L : Q := !![0, 1; 0, 0]

theorem Z_sq : Z * Z = 1 := by
  ext i j; fin_cases i <;> fin_cases j <;> simp [Z, Matrix.mul_apply, Fin.sum_univ_two]
theorem Z_adj : Zᴴ = Z := by
  ext i j; fin_cases i <;> fin_cases j <;> simp [Z, Matrix.conjTranspose_apply]
theorem ZL : Z * L = - (L * Z) := by
  ext i j; fin_cases i <;> fin_cases j <;> simp [Z, L, Matrix.mul_apply, Fin.sum_univ_two]
theorem ZLd : Z * Lᴴ = - (Lᴴ * Z) := by
  ext i j; fin_cases i <;> fin_cases j <;> simp [Z, L, Matrix.mul_apply, Fin.sum_univ_two, Matrix.conjTranspose_apply]
theorem LL : L * L = 0 := by
  ext i j; fin_cases i <;> fin_cases j <;> simp [L, Matrix.mul_apply, Fin.sum_univ_two]
theorem LLd : L * Lᴴ + Lᴴ * L = 1 := by
  have e : Lᴴ = !![0, 0; 1, 0] := by
    ext i j; fin_cases i <;> fin_cases j <;> simp [L, Matrix.conjTranspose_apply]
  rw [e]; ext i j; fin_cases i <;> fin_cases j <;> simp [L]

/-- the contract of jordan_wigner_lowering: Z before site j, L on it, 1 after it -/
def jw (n : ℕ) (j : Fin n) : Op n := chain fun i => if i < j then Z else if i = j then L else 1

theorem jw_adj (j : Fin n) : (jw n j)ᴴ = chain fun i => if i < j then Z else if i = j then Lᴴ else 1 := by
  rw [jw, chain_adj]
  congr 1; ext1 i
  split_ifs <;> simp [Z_adj]

/-- two chains with Z before the sites i < j and M, M' on the sites anticommute if M anticommutes with Z -/
theorem chain_anti {i j : Fin n} (hij : i < j) (M M' : Q) (hM : Z * M = - (M * Z)) :
    chain (fun k => if k < i then Z else if k = i then M else 1) * chain (fun k => if k < j then Z else if k = j then M' else 1)
      + chain (fun k => if k < j then Z else if k = j then M' else 1) * chain (fun k => if k < i then Z else if k = i then M else 1) = 0 := by
  rw [chain_mul, chain_mul, add_comm, chain_neg _ _ i]
  · exact neg_add_cancel _
  · simp [hij, hM]
  · intro k hk
    rcases lt_or_gt_of_ne hk with h | h
    · simp [h, h.trans hij]
    · simp [not_lt.mpr h.le, hk]

theorem jw_anti_lt {i j : Fin n} (h : i < j) : jw n i * jw n j + jw n j * jw n i = 0 := chain_anti h L L ZL

theorem jw_anti_dag_lt {i j : Fin n} (h : i < j) : jw n i * (jw n j)ᴴ + (jw n j)ᴴ * jw n i = 0 := by
  rw [jw_adj]; exact chain_anti h L Lᴴ ZL

theorem jw_anti_dag_gt {i j : Fin n} (h : j < i) : jw n i * (jw n j)ᴴ + (jw n j)ᴴ * jw n i = 0 := by
  rw [jw_adj, add_comm]; exact chain_anti h Lᴴ L ZLd

theorem jw_sq (i : Fin n) : jw n i * jw n i = 0 := by
  rw [jw, chain_mul]
  ext x y
  refine Finset.prod_eq_zero (Finset.mem_univ i) ?_
  simp [LL]

theorem jw_self (i : Fin n) : jw n i * (jw n i)ᴴ + (jw n i)ᴴ * jw n i = 1 := by
  rw [jw_adj, jw, chain_mul, chain_mul, ← chain_one]
  refine chain_add _ _ _ i ?_ ?_ ?_
  · simp [LLd]
  all_goals
    intro k hk
    rcases lt_or_gt_of_ne hk with h | h
    · simp [h, Z_sq]
    · simp [not_lt.mpr h.le, hk]

/-- C01: {a_i, a_j} = 0 -/
theorem jw_anticommute (i j : Fin n) : jw n i * jw n j + jw n j * jw n i = 0 := by
  rcases lt_trichotomy i j with h | h | h
  · exact jw_anti_lt h
  · subst h; simp [jw_sq]
  · rw [add_comm]; exact jw_anti_lt h

/-- C01: {a_i, a_j^dagger} = delta_ij -/
theorem jw_canonical (i j : Fin n) : jw n i * (jw n j)ᴴ + (jw n j)ᴴ * jw n i = if i = j then 1 else 0 := by
  rcases lt_trichotomy i j with h | h | h
  · rw [if_neg h.ne]; exact jw_anti_dag_lt h
  · subst h; rw [if_pos rfl]; exact jw_self i
  · rw [if_neg h.ne']; exact jw_anti_dag_gt h

/-- C01: the first basis vector is annihilated -/
theorem jw_vacuum (i : Fin n) (x : Fin n → Fin 2) : jw n i x (fun _ => 0) = 0 := by
  refine Finset.prod_eq_zero (Finset.mem_univ i) ?_
  simp [L]
  generalize x i = a
  fin_cases a <;> rfl

/-! ### operators with the canonical anticommutation relations on any space -/

section CAR

variable {ι κ : Type*} [Fintype ι] [DecidableEq ι] [DecidableEq κ]

structure CAR (a : κ → Matrix ι ι ℂ) : Prop where
  anti : ∀ i j, a i * a j + a j * a i = 0
  canon : ∀ i j, a i * (a j)ᴴ + (a j)ᴴ * a i = if i = j then 1 else 0

theorem jw_car : CAR (jw n) := ⟨jw_anticommute, jw_canonical⟩

variable {a : κ → Matrix ι ι ℂ} (h : CAR a)
include h

theorem CAR.dag : CAR fun k => (a k)ᴴ := by
  constructor
  · intro i j
    have := congrArg conjTranspose (h.anti j i)
    simpa [conjTranspose_mul, conjTranspose_add] using this
  · intro i j
    rw [conjTranspose_conjTranspose, add_comm, h.canon j i]
    simp [eq_comm]

theorem CAR.sq (i : κ) : a i * a i = 0 := by
  have := h.anti i i
  rw [← two_smul ℂ] at this
  exact (smul_eq_zero.mp this).resolve_left two_ne_zero

theorem CAR.sq_dag (i : κ) : (a i)ᴴ * (a i)ᴴ = 0 := by
  rw [← conjTranspose_mul, h.sq, conjTranspose_zero]

theorem CAR.anti_dag (i j : κ) : (a i)ᴴ * (a j)ᴴ + (a j)ᴴ * (a i)ᴴ = 0 := by
  have := congrArg conjTranspose (h.anti j i)
  simpa [conjTranspose_mul, conjTranspose_add] using this

/-- C01, majoranas: ((a_j + a_j^dagger)/√2)² etc.  x_j = a_j + a_j^dagger, y_j = -i (a_j - a_j^dagger):
    {x_i, x_j} = {y_i, y_j} = 2 delta_ij, {x_i, y_j} = 0 -/
theorem CAR.majorana_xx (i j : κ) :
    (a i + (a i)ᴴ) * (a j + (a j)ᴴ) + (a j + (a j)ᴴ) * (a i + (a i)ᴴ) = if i = j then 2 else 0 := by
  have e : (a i + (a i)ᴴ) * (a j + (a j)ᴴ) + (a j + (a j)ᴴ) * (a i + (a i)ᴴ)
      = (a i * a j + a j * a i) + (a i * (a j)ᴴ + (a j)ᴴ * a i) + (a j * (a i)ᴴ + (a i)ᴴ * a j) + ((a i)ᴴ * (a j)ᴴ + (a j)ᴴ * (a i)ᴴ) := by
    noncomm_ring
  rw [e, h.anti, h.canon, h.canon, h.anti_dag]
  by_cases hij : i = j
  · subst hij; simp; norm_num
  · simp [hij, Ne.symm hij]

theorem CAR.majorana_yy (i j : κ) :
    (-Complex.I) • (a i - (a i)ᴴ) * (-Complex.I) • (a j - (a j)ᴴ) + (-Complex.I) • (a j - (a j)ᴴ) * (-Complex.I) • (a i - (a i)ᴴ)
      = if i = j then 2 else 0 := by
  have e : (a i - (a i)ᴴ) * (a j - (a j)ᴴ) + (a j - (a j)ᴴ) * (a i - (a i)ᴴ)
      = (a i * a j + a j * a i) - (a i * (a j)ᴴ + (a j)ᴴ * a i) - (a j * (a i)ᴴ + (a i)ᴴ * a j) + ((a i)ᴴ * (a j)ᴴ + (a j)ᴴ * (a i)ᴴ) := by
    noncomm_ring
  simp only [smul_mul_assoc, mul_smul_comm, smul_smul]
  rw [← smul_add, e, h.anti, h.canon, h.canon, h.anti_dag]
  by_cases hij : i = j
  · subst hij; simp; norm_num
  · simp [hij, Ne.symm hij]

theorem CAR.majorana_xy (i j : κ) :
    (a i + (a i)ᴴ) * (-Complex.I) • (a j - (a j)ᴴ) + (-Complex.I) • (a j - (a j)ᴴ) * (a i + (a i)ᴴ) = 0 := by
  have e : (a i + (a i)ᴴ) * (a j - (a j)ᴴ) + (a j - (a j)ᴴ) * (a i + (a i)ᴴ)
      = (a i * a j + a j * a i) - (a i * (a j)ᴴ + (a j)ᴴ * a i) + (a j * (a i)ᴴ + (a i)ᴴ * a j) - ((a i)ᴴ * (a j)ᴴ + (a j)ᴴ * (a i)ᴴ) := by
    noncomm_ring
  simp only [smul_mul_assoc, mul_smul_comm]
  rw [← smul_add, e, h.anti, h.canon, h.canon, h.anti_dag]
  by_cases hij : i = j
  · subst hij; simp
  · simp [hij, Ne.symm hij]

omit h [Fintype ι] [DecidableEq ι] in
theorem majorana_hermitian (b : Matrix ι ι ℂ) : (b + bᴴ)ᴴ = b + bᴴ ∧ ((-Complex.I) • (b - bᴴ))ᴴ = (-Complex.I) • (b - bᴴ) := by
  constructor
  · simp [conjTranspose_add, add_comm]
  · rw [conjTranspose_smul, conjTranspose_sub, conjTranspose_conjTranspose, ← neg_sub b bᴴ, smul_neg, ← neg_smul]
    simp

/-- lemma occupied-norm: raising operators of different modes applied to a normalised vacuum give a normalised vector -/
theorem CAR.annihilates (v : ι → ℂ) (hv : ∀ j, a j *ᵥ v = 0) (l : List κ) (j : κ) (hj : j ∉ l) :
    a j *ᵥ ((l.map fun k => (a k)ᴴ).prod *ᵥ v) = 0 := by
  induction l with
  | nil => simpa using hv j
  | cons k l ih =>
    have hk : j ≠ k := fun e => hj (e ▸ List.mem_cons_self)
    have hl : j ∉ l := fun e => hj (List.mem_cons_of_mem _ e)
    have c : a j * (a k)ᴴ = - ((a k)ᴴ * a j) := by
      have := h.canon j k
      rw [if_neg hk] at this
      exact eq_neg_of_add_eq_zero_left this
    rw [List.map_cons, List.prod_cons, ← mulVec_mulVec, mulVec_mulVec, c, neg_mulVec, ← mulVec_mulVec, ih hl]
    simp

theorem CAR.occupied_norm (v : ι → ℂ) (hv : ∀ j, a j *ᵥ v = 0) (l : List κ) (hl : l.Nodup) :
    star ((l.map fun k => (a k)ᴴ).prod *ᵥ v) ⬝ᵥ ((l.map fun k => (a k)ᴴ).prod *ᵥ v) = star v ⬝ᵥ v := by
  induction l with
  | nil => simp
  | cons k l ih =>
    obtain ⟨hk, hl⟩ := List.nodup_cons.mp hl
    rw [← ih hl]
    set w := (l.map fun k => (a k)ᴴ).prod *ᵥ v with hw
    rw [List.map_cons, List.prod_cons, ← mulVec_mulVec, ← hw, star_mulVec, conjTranspose_conjTranspose, ← dotProduct_mulVec, mulVec_mulVec]
    have c : a k * (a k)ᴴ = 1 - (a k)ᴴ * a k := by
      have := h.canon k k
      rw [if_pos rfl] at this
      exact eq_sub_of_add_eq this
    rw [c, sub_mulVec, one_mulVec, ← mulVec_mulVec, h.annihilates v hv l k hk]
    simp

/-- lemma vacuum-projector: the product of the factors 1 - b b^dagger, b = a_k^dagger, over all modes (each of them once or more)
    is annihilated by every lowering operator from the left -/
theorem CAR.factor_comm (i j : κ) (hij : i ≠ j) : a i * (1 - (a j)ᴴ * a j) = (1 - (a j)ᴴ * a j) * a i := by
  have c : a i * (a j)ᴴ = - ((a j)ᴴ * a i) := by
    have := h.canon i j
    rw [if_neg hij] at this
    exact eq_neg_of_add_eq_zero_left this
  have d : a i * a j = - (a j * a i) := eq_neg_of_add_eq_zero_left (h.anti i j)
  rw [mul_sub, sub_mul, mul_one, one_mul, ← mul_assoc, c, neg_mul, mul_assoc, d, mul_neg, neg_neg, mul_assoc]

theorem CAR.factor_kill (i : κ) : a i * (1 - (a i)ᴴ * a i) = 0 := by
  have c : a i * (a i)ᴴ = 1 - (a i)ᴴ * a i := by
    have := h.canon i i
    rw [if_pos rfl] at this
    exact eq_sub_of_add_eq this
  rw [mul_sub, mul_one, ← mul_assoc, c, sub_mul, one_mul, mul_assoc, h.sq, mul_zero, sub_zero, sub_self]

theorem CAR.vacuum_projector (l : List κ) (j : κ) (hj : j ∈ l) : a j * (l.map fun k => 1 - (a k)ᴴ * a k).prod = 0 := by
  induction l with
  | nil => simp at hj
  | cons k l ih =>
    rw [List.map_cons, List.prod_cons, ← mul_assoc]
    by_cases e : j = k
    · subst e; rw [h.factor_kill, zero_mul]
    · rw [h.factor_comm j k e, mul_assoc, ih ((List.mem_cons.mp hj).resolve_left e), mul_zero]

/-- lemma number-conserving: a_i^dagger a_j commutes with the particle number N = Σ a_k^dagger a_k; so does a_i a_j^dagger -/
theorem CAR.number_lower [Fintype κ] (i : κ) : (∑ k, (a k)ᴴ * a k) * a i = a i * (∑ k, (a k)ᴴ * a k) - a i := by
  rw [Finset.sum_mul, Finset.mul_sum, eq_sub_iff_add_eq]
  have key : ∀ k, (a k)ᴴ * a k * a i = a i * ((a k)ᴴ * a k) - if k = i then a i else 0 := by
    intro k
    have d : a k * a i = - (a i * a k) := eq_neg_of_add_eq_zero_left (h.anti k i)
    have c : (a k)ᴴ * a i = (if i = k then 1 else 0) - a i * (a k)ᴴ := eq_sub_of_add_eq' (h.canon i k)
    rw [mul_assoc, d, mul_neg, ← mul_assoc, c]
    by_cases e : k = i
    · subst e; simp [sub_mul, mul_assoc]
    · simp [e, Ne.symm e, mul_assoc]
  simp [key]

theorem CAR.number_conserving [Fintype κ] (i j : κ) :
    (∑ k, (a k)ᴴ * a k) * ((a i)ᴴ * a j) = ((a i)ᴴ * a j) * (∑ k, (a k)ᴴ * a k)
      ∧ (∑ k, (a k)ᴴ * a k) * (a i * (a j)ᴴ) = (a i * (a j)ᴴ) * (∑ k, (a k)ᴴ * a k) := by
  set N := ∑ k, (a k)ᴴ * a k with hN
  have herm : Nᴴ = N := by rw [hN, conjTranspose_sum]; simp [conjTranspose_mul]
  have lo : ∀ i, N * a i = a i * N - a i := h.number_lower
  have hi : ∀ i, N * (a i)ᴴ = (a i)ᴴ * N + (a i)ᴴ := by
    intro i
    have := congrArg conjTranspose (lo i)
    rw [conjTranspose_mul, conjTranspose_sub, conjTranspose_mul, herm] at this
    rw [this]; abel
  constructor
  · rw [← mul_assoc, hi, add_mul, mul_assoc, lo, mul_sub, mul_assoc]; abel
  · rw [← mul_assoc, lo, sub_mul, mul_assoc, hi, mul_add, mul_assoc]; abel

end CAR

/-! ### lemma rotated-car: a canonical unitary U = [[s, conj t], [t, conj s]] preserves S = [[0, 1], [1, 0]] (U S U^T = S),
the anticommutators of b_j = Σ_i U_ji alpha_i (C03, C06, C08, C17) -/

section rotated

variable {m : Type*} [Fintype m] [DecidableEq m]

def S : Matrix (m ⊕ m) (m ⊕ m) ℂ := fromBlocks 0 1 1 0

theorem canonical_symplectic (s t : Matrix m m ℂ) (h : fromBlocks s (t.map star) t (s.map star) * (fromBlocks s (t.map star) t (s.map star))ᴴ = 1) :
    fromBlocks s (t.map star) t (s.map star) * S * (fromBlocks s (t.map star) t (s.map star))ᵀ = S := by
  have e : S * (fromBlocks s (t.map star) t (s.map star))ᵀ = (fromBlocks s (t.map star) t (s.map star))ᴴ * S := by
    rw [S, fromBlocks_transpose, fromBlocks_conjTranspose, fromBlocks_multiply, fromBlocks_multiply]
    simp [conjTranspose, transpose_map, Matrix.map_map, Function.comp_def]
  rw [Matrix.mul_assoc, e, ← Matrix.mul_assoc, h, Matrix.one_mul]

/-- anticommutators of linear combinations -/
theorem rotated_anticommutator {ι κ : Type*} [Fintype ι] [DecidableEq ι] [Fintype κ] (α : κ → Matrix ι ι ℂ) (A : Matrix κ κ ℂ)
    (h : ∀ i j, α i * α j + α j * α i = A i j • (1 : Matrix ι ι ℂ)) (U : Matrix κ κ ℂ) (j k : κ) :
    (∑ p, U j p • α p) * (∑ q, U k q • α q) + (∑ q, U k q • α q) * (∑ p, U j p • α p) = (U * A * Uᵀ) j k • (1 : Matrix ι ι ℂ) := by
  have e : (∑ q, U k q • α q) * (∑ p, U j p • α p) = ∑ p, ∑ q, (U j p * U k q) • (α q * α p) := by
    rw [Finset.sum_mul_sum, Finset.sum_comm]
    refine Finset.sum_congr rfl fun p _ => Finset.sum_congr rfl fun q _ => ?_
    rw [smul_mul_assoc, mul_smul_comm, smul_smul, mul_comm]
  have f : (∑ p, U j p • α p) * (∑ q, U k q • α q) = ∑ p, ∑ q, (U j p * U k q) • (α p * α q) := by
    rw [Finset.sum_mul_sum]
    refine Finset.sum_congr rfl fun p _ => Finset.sum_congr rfl fun q _ => ?_
    rw [smul_mul_assoc, mul_smul_comm, smul_smul]
  have g : (U * A * Uᵀ) j k = ∑ p, ∑ q, U j p * U k q * A p q := by
    simp only [Matrix.mul_apply, Finset.sum_mul, Matrix.transpose_apply]
    rw [Finset.sum_comm]
    exact Finset.sum_congr rfl fun q _ => Finset.sum_congr rfl fun p _ => mul_right_comm _ _ _
  rw [e, f, g, ← Finset.sum_add_distrib, Finset.sum_smul]
  refine Finset.sum_congr rfl fun p _ => ?_
  rw [← Finset.sum_add_distrib, Finset.sum_smul]
  refine Finset.sum_congr rfl fun q _ => ?_
  rw [← smul_add, h, smul_smul]

end rotated

/-! ### partial traces of Kronecker products (C12) -/

section partial_trace

variable {m k : Type*} [Fintype m] [Fintype k]

omit [Fintype k] in
theorem trace_over_first (X : Matrix m m ℂ) (Y : Matrix k k ℂ) (p q : k) : ∑ j, kroneckerMap (· * ·) X Y (j, p) (j, q) = X.trace * Y p q := by
  simp [Matrix.trace, Finset.sum_mul]

omit [Fintype m] in
theorem trace_over_second (X : Matrix m m ℂ) (Y : Matrix k k ℂ) (i j : m) : ∑ p, kroneckerMap (· * ·) X Y (i, p) (j, p) = Y.trace * X i j := by
  simp [Matrix.trace, Finset.mul_sum, mul_comm]

theorem trace_preserved (A : Matrix (m × k) (m × k) ℂ) : (∑ p, ∑ j, A (j, p) (j, p)) = A.trace ∧ (∑ i, ∑ p, A (i, p) (i, p)) = A.trace := by
  constructor
  · rw [Matrix.trace, Fintype.sum_prod_type_right]; rfl
  · rw [Matrix.trace, Fintype.sum_prod_type]; rfl

end partial_trace

/-! ### Pauli completeness (C15): Σ_P P_ab P_cd = 2^n δ_ad δ_bc, hence Σ_P Tr[P ρ]^2 = 2^n Tr ρ^2 -/

section pauli

def pauli : Fin 4 → Q := ![1, !![0, 1; 1, 0], !![0, -Complex.I; Complex.I, 0], Z]

theorem pauli_complete (a b c d : Fin 2) : ∑ s, pauli s a b * pauli s c d = if a = d ∧ b = c then 2 else 0 := by
  fin_cases a <;> fin_cases b <;> fin_cases c <;> fin_cases d <;> simp [pauli, Fin.sum_univ_four, Z] <;> norm_num

theorem chain_complete (a b c d : Fin n → Fin 2) :
    ∑ s : Fin n → Fin 4, chain (fun i => pauli (s i)) a b * chain (fun i => pauli (s i)) c d = if a = d ∧ b = c then 2 ^ n else 0 := by
  simp only [chain, ← Finset.prod_mul_distrib]
  rw [← Fintype.piFinset_univ, ← Finset.prod_univ_sum (fun _ => Finset.univ) (fun i s => pauli s (a i) (b i) * pauli s (c i) (d i))]
  simp only [pauli_complete]
  by_cases e : a = d ∧ b = c
  · obtain ⟨rfl, rfl⟩ := e; simp
  · rw [if_neg e]
    have : ∃ i, ¬ (a i = d i ∧ b i = c i) := by
      by_contra hh
      push Not at hh
      exact e ⟨funext fun i => (hh i).1, funext fun i => (hh i).2⟩
    obtain ⟨i, hi⟩ := this
    exact Finset.prod_eq_zero (Finset.mem_univ i) (if_neg hi)

theorem stabilizer_sum (ρ : Op n) : ∑ s : Fin n → Fin 4, ((chain fun i => pauli (s i)) * ρ).trace ^ 2 = 2 ^ n * (ρ * ρ).trace := by
  have e : ∀ P : Op n, (P * ρ).trace ^ 2 = ∑ a, ∑ b, ∑ c, ∑ d, P a b * P c d * (ρ b a * ρ d c) := by
    intro P
    simp only [Matrix.trace, Matrix.diag_apply, Matrix.mul_apply, sq]
    rw [Finset.sum_mul]
    refine Finset.sum_congr rfl fun a _ => ?_
    rw [Finset.sum_mul]
    refine Finset.sum_congr rfl fun b _ => ?_
    rw [Finset.mul_sum]
    refine Finset.sum_congr rfl fun c _ => ?_
    rw [Finset.mul_sum]
    exact Finset.sum_congr rfl fun d _ => by ring
  simp only [e]
  rw [Finset.sum_comm]
  have f : ∀ a, ∑ s : Fin n → Fin 4, ∑ b, ∑ c, ∑ d, chain (fun i => pauli (s i)) a b * chain (fun i => pauli (s i)) c d * (ρ b a * ρ d c)
      = ∑ b, 2 ^ n * (ρ b a * ρ a b) := by
    intro a
    rw [Finset.sum_comm]
    refine Finset.sum_congr rfl fun b _ => ?_
    rw [Finset.sum_comm, Finset.sum_eq_single b]
    · rw [Finset.sum_comm, Finset.sum_eq_single a]
      · rw [← Finset.sum_mul, chain_complete, if_pos ⟨rfl, rfl⟩]
      · intro d _ hd
        rw [← Finset.sum_mul, chain_complete, if_neg (fun h => hd h.1.symm), zero_mul]
      · intro h; exact absurd (Finset.mem_univ a) h
    · intro c _ hc
      rw [Finset.sum_comm]
      refine Finset.sum_eq_zero fun d _ => ?_
      rw [← Finset.sum_mul, chain_complete, if_neg (fun h => hc h.2.symm), zero_mul]
    · intro h; exact absurd (Finset.mem_univ b) h
  simp only [f, Matrix.trace, Matrix.diag_apply, Matrix.mul_apply]
  rw [Finset.mul_sum]
  refine Finset.sum_congr rfl fun a _ => ?_
  rw [Finset.mul_sum]
  exact Finset.sum_congr rfl fun b _ => by ring

end pauli

/-! ### facts behind rules of the algebra and of loop summaries -/

/-- a product of signs is a sign, -1 iff the number of -1 is odd (complete_face, C11: such a face is odd) -/
theorem sign_product (l : List ℤ) (h : ∀ x ∈ l, x = 1 ∨ x = -1) :
    l.prod = (-1) ^ (l.filter (· = -1)).length := by
  induction l with
  | nil => simp
  | cons a l ih =>
    have := ih fun x hx => h x (List.mem_cons_of_mem _ hx)
    rcases h a List.mem_cons_self with e | e
    · subst e; simp [this]
    · subst e; simp [this, pow_succ]

theorem odd_face (l : List ℤ) (h : ∀ x ∈ l, x = 1 ∨ x = -1) : l.prod = -1 ↔ Odd (l.filter (· = -1)).length := by
  rw [sign_product l h, neg_one_pow_eq_neg_one_iff_odd (by norm_num)]

/-- rule contract_hits: Σ_j [j is one of f 0 .. f (m-1)] = m for distinct values -/
theorem hits {m N : ℕ} (f : Fin m → Fin N) (hf : Function.Injective f) : (∑ j, if j ∈ Finset.univ.image f then 1 else 0) = m := by
  simp [Finset.card_image_of_injective _ hf]

/-- rules contract_unitary and unit columns: orthonormality of columns and rows -/
theorem unitary_columns {ι : Type*} [Fintype ι] [DecidableEq ι] (U : Matrix ι ι ℂ) (h : Uᴴ * U = 1) (i j : ι) :
    (∑ k, star (U k i) * U k j = if i = j then 1 else 0) ∧ (∑ k, U i k * star (U j k) = if i = j then 1 else 0) := by
  have h' : U * Uᴴ = 1 := mul_eq_one_comm.mp h
  constructor
  · simpa [Matrix.mul_apply, Matrix.one_apply] using congrFun (congrFun h i) j
  · simpa [Matrix.mul_apply, Matrix.one_apply] using congrFun (congrFun h' i) j

/-- rule for iterated linear maps: x_{k+1} = M_k x_k -/
theorem iterate_norm {ι : Type*} [Fintype ι] [DecidableEq ι] (U : Matrix ι ι ℂ) (h : Uᴴ * U = 1) (v : ι → ℂ) :
    star (U *ᵥ v) ⬝ᵥ (U *ᵥ v) = star v ⬝ᵥ v := by
  rw [star_mulVec, ← dotProduct_mulVec, mulVec_mulVec, h, one_mulVec]

/-- exp(-X)/Tr exp(-X) for Hermitian X: a positive matrix divided by its trace has trace one (C07) -/
theorem normalised_trace {ι : Type*} [Fintype ι] (A : Matrix ι ι ℂ) (h : A.trace ≠ 0) : ((A.trace)⁻¹ • A).trace = 1 := by
  rw [Matrix.trace_smul, smul_eq_mul, inv_mul_cancel₀ h]

end FF
