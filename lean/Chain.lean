/-
C26: eigenvalues of a transition matrix.  `get_stationary_distribution` takes the eigenvector of the eigenvalue of
largest real part of the transposed matrix; by these lemmas that eigenvalue is 1, so the vector is stationary.
C20, C21: the finite form of the mean-field update.
-/
import Mathlib

open Finset BigOperators

namespace Chain

/-- every eigenvalue of a row-stochastic matrix has modulus at most one -/
theorem eigenvalue_le_one {n : Type*} [Fintype n] [Nonempty n] (A : n → n → ℝ) (h0 : ∀ i j, 0 ≤ A i j)
    (h1 : ∀ i, ∑ j, A i j = 1) (l : ℂ) (v : n → ℂ) (hv : v ≠ 0) (h : ∀ i, ∑ j, (A i j : ℂ) * v j = l * v i) : ‖l‖ ≤ 1 := by
  obtain ⟨i, -, hi⟩ := Finset.exists_max_image univ (fun i => ‖v i‖) univ_nonempty
  have hpos : 0 < ‖v i‖ := by
    obtain ⟨k, hk⟩ := Function.ne_iff.mp hv
    exact lt_of_lt_of_le (norm_pos_iff.mpr hk) (hi k (mem_univ _))
  have : ‖l‖ * ‖v i‖ ≤ 1 * ‖v i‖ := by
    rw [← norm_mul, ← h i, ← h1 i, Finset.sum_mul]
    refine (norm_sum_le _ _).trans (Finset.sum_le_sum fun j _ => ?_)
    rw [norm_mul, Complex.norm_real, Real.norm_of_nonneg (h0 i j)]
    exact mul_le_mul_of_nonneg_left (hi j (mem_univ _)) (h0 i j)
  exact le_of_mul_le_mul_right this hpos

/-- one is an eigenvalue of a row-stochastic matrix -/
theorem one_is_eigenvalue {n : Type*} [Fintype n] (A : n → n → ℝ) (h1 : ∀ i, ∑ j, A i j = 1) (i : n) :
    ∑ j, A i j * (1 : ℝ) = 1 * 1 := by simpa using h1 i

/-- C21: over all distributions q of a finite hidden variable, Σ q (f - log q) is at most log Σ exp f -/
theorem mean_field {ζ : Type*} [Fintype ζ] [Nonempty ζ] (f q : ζ → ℝ) (hq : ∀ z, 0 ≤ q z) (hs : ∑ z, q z = 1) :
    ∑ z, q z * (f z - Real.log (q z)) ≤ Real.log (∑ z, Real.exp (f z)) := by
  set S := ∑ z, Real.exp (f z)
  have hS : 0 < S := Finset.sum_pos (fun z _ => Real.exp_pos _) univ_nonempty
  have key : ∀ z, q z * (f z - Real.log (q z)) ≤ q z * Real.log S + (Real.exp (f z) / S - q z) := by
    intro z
    rcases (hq z).eq_or_lt with h | h
    · have : 0 ≤ Real.exp (f z) / S := div_nonneg (Real.exp_pos _).le hS.le
      simp [← h, this]
    · have hp : 0 < Real.exp (f z) / S / q z := div_pos (div_pos (Real.exp_pos _) hS) h
      have hl := Real.log_le_sub_one_of_pos hp
      rw [Real.log_div (div_pos (Real.exp_pos _) hS).ne' h.ne', Real.log_div (Real.exp_pos _).ne' hS.ne', Real.log_exp] at hl
      have h2 := mul_le_mul_of_nonneg_left hl h.le
      have h3 : q z * (Real.exp (f z) / S / q z - 1) = Real.exp (f z) / S - q z := by field_simp
      rw [h3] at h2
      linarith [mul_sub (q z) (f z - Real.log S) (Real.log (q z)), mul_sub (q z) (f z) (Real.log S), mul_sub (q z) (f z) (Real.log (q z))]
  have hsum := Finset.sum_le_sum fun z (_ : z ∈ univ) => key z
  rw [Finset.sum_add_distrib, Finset.sum_sub_distrib, ← Finset.sum_mul, ← Finset.sum_div, hs, div_self hS.ne'] at hsum
  linarith

/-- C21: that bound is attained by q proportional to exp f (the variational E-step) -/
theorem mean_field_attained {ζ : Type*} [Fintype ζ] [Nonempty ζ] (f : ζ → ℝ) :
    ∑ z, Real.exp (f z) / (∑ y, Real.exp (f y)) * (f z - Real.log (Real.exp (f z) / ∑ y, Real.exp (f y))) =
      Real.log (∑ z, Real.exp (f z)) := by
  set S := ∑ z, Real.exp (f z)
  have hS : 0 < S := Finset.sum_pos (fun z _ => Real.exp_pos _) univ_nonempty
  have : ∀ z, Real.exp (f z) / S * (f z - Real.log (Real.exp (f z) / S)) = Real.exp (f z) / S * Real.log S := by
    intro z; rw [Real.log_div (Real.exp_pos _).ne' hS.ne', Real.log_exp]; ring
  rw [Finset.sum_congr rfl fun z _ => this z, ← Finset.sum_mul, ← Finset.sum_div, div_self hS.ne', one_mul]

end Chain
