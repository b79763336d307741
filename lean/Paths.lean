/-
Mathematics behind the contracts of C01, C02 and C03, about the recursions the contracts are stated with
(`spec.FWD`, `spec.BWD`, `spec.VIT` of /verif/hmmv/spec.py), for every number of states and every length.

A path of length t+1 is a function from Fin (t+1) to the states; its weight is the joint probability of the path
and the observations.
-/
import Mathlib

open Finset BigOperators

namespace HMM
variable {n : ℕ} (P : Fin n → ℝ) (A : Fin n → Fin n → ℝ) (B : ℕ → Fin n → ℝ)

/-- forward recursion -/
def fwd : ℕ → Fin n → ℝ
  | 0, j => P j * B 0 j
  | t + 1, j => (∑ i, fwd t i * A i j) * B (t + 1) j

/-- joint probability of a path and the observations -/
def weight : (t : ℕ) → (Fin (t + 1) → Fin n) → ℝ
  | 0, z => P (z 0) * B 0 (z 0)
  | t + 1, z => weight t (Fin.init z) * A (z (Fin.castSucc (Fin.last t))) (z (Fin.last (t + 1))) * B (t + 1) (z (Fin.last (t + 1)))

/-- splitting off the last state of a path -/
theorem sum_snoc (t : ℕ) (f : (Fin (t + 2) → Fin n) → ℝ) :
    ∑ z, f z = ∑ j : Fin n, ∑ y : Fin (t + 1) → Fin n, f (Fin.snoc y j) := by
  rw [← Fintype.sum_prod_type' (f := fun (j : Fin n) (y : Fin (t + 1) → Fin n) => f (Fin.snoc y j))]
  refine (Fintype.sum_equiv (Fin.snocEquiv (fun _ => Fin n)) _ _ ?_).symm
  intro x; rfl

/-- C01, C02: the forward recursion at (t, j) is the total weight of the paths that end in j -/
theorem fwd_eq_sum_paths (t : ℕ) (j : Fin n) :
    fwd P A B t j = ∑ z : Fin (t + 1) → Fin n, if z (Fin.last t) = j then weight P A B t z else 0 := by
  induction t generalizing j with
  | zero =>
    rw [← (Equiv.funUnique (Fin 1) (Fin n)).symm.sum_comp]
    simp [fwd, weight, Equiv.funUnique, uniqueElim]
  | succ t ih =>
    rw [sum_snoc]
    simp only [Fin.snoc_last, fwd, weight, Fin.snoc_castSucc, Fin.init_snoc]
    rw [Finset.sum_comm]
    simp only [Finset.sum_ite_eq', Finset.mem_univ, if_true]
    simp only [ih, Finset.sum_mul]
    rw [Finset.sum_comm]
    refine Finset.sum_congr rfl fun y _ => ?_
    simp [ite_mul, Finset.sum_ite_eq]

/-- C01: the sum of the last forward row is the probability of the observations -/
theorem likelihood (t : ℕ) : ∑ j, fwd P A B t j = ∑ z : Fin (t + 1) → Fin n, weight P A B t z := by
  simp only [fwd_eq_sum_paths]
  rw [Finset.sum_comm]
  simp

/-- one step of the backward recursion -/
def step (t : ℕ) (b : Fin n → ℝ) : Fin n → ℝ := fun i => ∑ k, A i k * B (t + 1) k * b k

/-- backward recursion from `b`, `r` frames after frame `t` -/
def back : ℕ → ℕ → (Fin n → ℝ) → (Fin n → ℝ)
  | 0, _, b => b
  | r + 1, t, b => step A B t (back r (t + 1) b)

theorem back_succ' (r t : ℕ) (b : Fin n → ℝ) : back A B (r + 1) t b = back A B r t (step A B (t + r) b) := by
  induction r generalizing t with
  | zero => rfl
  | succ r ih =>
    rw [back, ih (t + 1), back]
    have : t + 1 + r = t + (r + 1) := by ring
    rw [this]

/-- the first s+1 states of a path -/
def pre {s : ℕ} : (r : ℕ) → (Fin (s + r + 1) → Fin n) → (Fin (s + 1) → Fin n)
  | 0, z => z
  | r + 1, z => pre r (Fin.init z)

/-- summing over the continuations of a path gives the backward recursion -/
theorem sum_extensions (s r : ℕ) (φ : (Fin (s + 1) → Fin n) → ℝ) (b : Fin n → ℝ) :
    ∑ z : Fin (s + r + 1) → Fin n, φ (pre r z) * weight P A B (s + r) z * b (z (Fin.last (s + r))) =
      ∑ y : Fin (s + 1) → Fin n, φ y * weight P A B s y * back A B r s b (y (Fin.last s)) := by
  induction r generalizing b with
  | zero => rfl
  | succ r ih =>
    rw [back_succ', ← ih]
    have := sum_snoc (s + r) (fun z : Fin (s + r + 2) → Fin n => φ (pre (r + 1) z) * weight P A B (s + r + 1) z * b (z (Fin.last (s + r + 1))))
    refine this.trans ?_
    rw [Finset.sum_comm]
    refine Finset.sum_congr rfl fun y _ => ?_
    simp only [pre, weight, Fin.snoc_last, Fin.snoc_castSucc, Fin.init_snoc, step, Finset.mul_sum]
    refine Finset.sum_congr rfl fun k _ => ?_
    ring

/-- C02: forward times backward at (t, j) is the total weight of the paths that are in j at frame t -/
theorem gamma (t r : ℕ) (j : Fin n) :
    fwd P A B t j * back A B r t (fun _ => 1) j =
      ∑ z : Fin (t + r + 1) → Fin n, if pre (s := t) r z (Fin.last t) = j then weight P A B (t + r) z else 0 := by
  have h := sum_extensions P A B t r (fun y => if y (Fin.last t) = j then 1 else 0) (fun _ => 1)
  simp only [mul_one, ite_mul, one_mul, zero_mul] at h
  rw [h, fwd_eq_sum_paths, Finset.sum_mul]
  refine Finset.sum_congr rfl fun y _ => ?_
  split_ifs with hy
  · rw [hy]
  · simp

/-- C06: the transition statistic at (t, i, j) is the total weight of the paths that go from i to j after frame t -/
theorem xi (t r : ℕ) (i j : Fin n) :
    fwd P A B t i * A i j * B (t + 1) j * back A B r (t + 1) (fun _ => 1) j =
      ∑ z : Fin (t + 1 + r + 1) → Fin n,
        if pre (s := t + 1) r z (Fin.castSucc (Fin.last t)) = i ∧ pre (s := t + 1) r z (Fin.last (t + 1)) = j then weight P A B (t + 1 + r) z else 0 := by
  have h := sum_extensions P A B (t + 1) r
    (fun y => if y (Fin.castSucc (Fin.last t)) = i ∧ y (Fin.last (t + 1)) = j then 1 else 0) (fun _ => 1)
  simp only [mul_one, ite_mul, one_mul, zero_mul] at h
  rw [h, sum_snoc, Finset.sum_comm, fwd_eq_sum_paths]
  simp only [Finset.sum_mul]
  refine Finset.sum_congr rfl fun y _ => ?_
  simp only [Fin.snoc_last, Fin.snoc_castSucc, weight, Fin.init_snoc]
  by_cases hy : y (Fin.last t) = i
  · simp [hy]
  · simp [hy]

/-- Viterbi recursion (over a non-empty set of states) -/
noncomputable def vit [NeZero n] : ℕ → Fin n → ℝ
  | 0, j => P j * B 0 j
  | t + 1, j => (univ.sup' univ_nonempty fun i => vit t i * A i j) * B (t + 1) j

/-- C03: no path ending in j weighs more than the Viterbi recursion, for non-negative probabilities -/
theorem weight_le_vit [NeZero n] (hA : ∀ i j, 0 ≤ A i j) (hB : ∀ t j, 0 ≤ B t j) (t : ℕ) (z : Fin (t + 1) → Fin n) :
    weight P A B t z ≤ vit P A B t (z (Fin.last t)) := by
  induction t with
  | zero => simp [weight, vit]
  | succ t ih =>
    simp only [weight, vit]
    refine mul_le_mul_of_nonneg_right ?_ (hB _ _)
    refine le_trans (mul_le_mul_of_nonneg_right (ih (Fin.init z)) (hA _ _)) ?_
    exact Finset.le_sup' (fun i => vit P A B t i * A i (z (Fin.last (t + 1)))) (Finset.mem_univ _)

/-- C03: backtracking, i.e. taking at every step a predecessor that attains the maximum, gives a path of that weight -/
theorem backtrack [NeZero n] (t : ℕ) (z : Fin (t + 1) → Fin n)
    (h : ∀ (s : ℕ) (hs : s < t), vit P A B s (z ⟨s, by omega⟩) * A (z ⟨s, by omega⟩) (z ⟨s + 1, by omega⟩) =
      univ.sup' univ_nonempty fun i => vit P A B s i * A i (z ⟨s + 1, by omega⟩)) :
    weight P A B t z = vit P A B t (z (Fin.last t)) := by
  induction t with
  | zero => simp [weight, vit]
  | succ t ih =>
    have h1 := ih (Fin.init z) (fun s hs => h s (by omega))
    have h2 := h t (by omega)
    simp only [weight, vit, h1]
    congr 1

/-- C03: the largest entry of the last Viterbi row is the largest weight of any path -/
theorem vit_is_max [NeZero n] (hA : ∀ i j, 0 ≤ A i j) (hB : ∀ t j, 0 ≤ B t j) (t : ℕ) (z y : Fin (t + 1) → Fin n)
    (hz : weight P A B t z = vit P A B t (z (Fin.last t)))
    (hl : ∀ j, vit P A B t j ≤ vit P A B t (z (Fin.last t))) : weight P A B t y ≤ weight P A B t z := by
  rw [hz]; exact le_trans (weight_le_vit P A B hA hB t y) (hl _)

end HMM
