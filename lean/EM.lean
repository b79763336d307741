/-
Mathematics behind the contracts of C09 (and the maximisation steps of C06 - C08): the E-step and M-step contracts say
which statistics are computed and which maximiser is taken; these lemmas say that an iteration made of them never
decreases the likelihood.
-/
import Mathlib

open Finset BigOperators

namespace EM

/-- a log b <= a log a + b - a -/
theorem log_tangent {a b : ℝ} (ha : 0 < a) (hb : 0 < b) : a * Real.log b ≤ a * Real.log a + b - a := by
  have h := Real.log_le_sub_one_of_pos (div_pos hb ha)
  rw [Real.log_div hb.ne' ha.ne'] at h
  have h2 := mul_le_mul_of_nonneg_left h ha.le
  have h3 : a * (b / a - 1) = b - a := by field_simp
  linarith [mul_sub a (Real.log b) (Real.log a)]

/-- Gibbs' inequality: among sub-distributions, Σ c log q is largest for q = c / Σ c (M-step of start, transition,
categorical, multinomial and mixture-weight rows; the support condition covers structural zeros) -/
theorem rows {ι : Type*} [Fintype ι] (c q : ι → ℝ) (hc : ∀ i, 0 ≤ c i) (hC : 0 < ∑ i, c i) (hq0 : ∀ i, 0 ≤ q i)
    (hq : ∀ i, 0 < c i → 0 < q i) (hs : ∑ i, q i ≤ 1) :
    ∑ i, c i * Real.log (q i) ≤ ∑ i, c i * Real.log (c i / ∑ k, c k) := by
  set C := ∑ k, c k
  have key : ∀ i, c i * Real.log (q i) ≤ c i * Real.log (c i / C) + (C * q i - c i) := by
    intro i
    rcases (hc i).eq_or_lt with h | h
    · have : 0 ≤ C * q i := mul_nonneg hC.le (hq0 i)
      simp [← h, this]
    · have hp : 0 < c i / C := div_pos h hC
      have := log_tangent hp (hq i h)
      have h2 := mul_le_mul_of_nonneg_left this hC.le
      have h3 : C * (c i / C * Real.log (q i)) = c i * Real.log (q i) := by field_simp
      have h4 : C * (c i / C * Real.log (c i / C) + q i - c i / C) = c i * Real.log (c i / C) + (C * q i - c i) := by
        field_simp; ring
      linarith
  have hsum := Finset.sum_le_sum fun i (_ : i ∈ univ) => key i
  rw [Finset.sum_add_distrib, Finset.sum_sub_distrib, ← Finset.mul_sum] at hsum
  have : C * ∑ i, q i ≤ C := by nlinarith
  linarith

/-- C09: if the expected complete-data log likelihood under the old posterior does not decrease, neither does the
likelihood.  z ranges over the hidden paths, p and p' are the joint probabilities before and after the iteration. -/
theorem em_step {ζ : Type*} [Fintype ζ] (p p' : ζ → ℝ) (hp : ∀ z, 0 ≤ p z) (hp' : ∀ z, 0 ≤ p' z)
    (hsup : ∀ z, 0 < p z → 0 < p' z) (_ : 0 < ∑ z, p z)
    (hQ : ∑ z, p z * Real.log (p z) ≤ ∑ z, p z * Real.log (p' z)) : ∑ z, p z ≤ ∑ z, p' z := by
  have key : ∀ z, p z * Real.log (p' z) ≤ p z * Real.log (p z) + p' z - p z := by
    intro z
    rcases (hp z).eq_or_lt with h | h
    · simp [← h, hp' z]
    · exact log_tangent h (hsup z h)
  have hsum := Finset.sum_le_sum fun z (_ : z ∈ univ) => key z
  rw [Finset.sum_sub_distrib, Finset.sum_add_distrib] at hsum
  linarith

/-- M-step of Poisson rates: s log λ - c λ is largest at λ = s / c -/
theorem poisson (s c l : ℝ) (hs : 0 < s) (hc : 0 < c) (hl : 0 < l) :
    s * Real.log l - c * l ≤ s * Real.log (s / c) - c * (s / c) := by
  have h := log_tangent (div_pos hs hc) hl
  have h2 := mul_le_mul_of_nonneg_left h hc.le
  have h3 : c * (s / c * Real.log l) = s * Real.log l := by field_simp
  have h4 : c * (s / c * Real.log (s / c) + l - s / c) = s * Real.log (s / c) + c * l - c * (s / c) := by field_simp
  linarith

/-- M-step of means: the weighted squared error is smallest at the weighted mean -/
theorem mean {ι : Type*} [Fintype ι] (w x : ι → ℝ) (hW : 0 < ∑ i, w i) (m : ℝ) :
    ∑ i, w i * (x i - (∑ k, w k * x k) / ∑ k, w k) ^ 2 ≤ ∑ i, w i * (x i - m) ^ 2 := by
  set W := ∑ k, w k; set M := (∑ k, w k * x k) / W
  have hM : ∑ i, w i * x i = M * W := by simp only [M]; field_simp
  have e : ∑ i, w i * (x i - m) ^ 2 = ∑ i, w i * (x i - M) ^ 2 + W * (M - m) ^ 2 := by
    have : ∀ i, w i * (x i - m) ^ 2 = w i * (x i - M) ^ 2 + 2 * (M - m) * (w i * x i) + w i * (m ^ 2 - M ^ 2) := by
      intro i; ring
    rw [Finset.sum_congr rfl fun i _ => this i, Finset.sum_add_distrib, Finset.sum_add_distrib, ← Finset.mul_sum, ← Finset.sum_mul, hM]
    ring
  rw [e]; nlinarith [sq_nonneg (M - m)]

/-- M-step of variances (spherical, diagonal): -(c log v + s / v) / 2 is largest at v = s / c -/
theorem variance (c s v : ℝ) (hc : 0 < c) (hs : 0 < s) (hv : 0 < v) :
    -(c * Real.log v + s / v) / 2 ≤ -(c * Real.log (s / c) + s / (s / c)) / 2 := by
  have h := Real.log_le_sub_one_of_pos (div_pos (div_pos hs hc) hv)
  rw [Real.log_div (div_pos hs hc).ne' hv.ne'] at h
  have h2 := mul_le_mul_of_nonneg_left h hc.le
  have h3 : c * (s / c / v - 1) = s / v - c := by field_simp
  have h4 : s / (s / c) = c := by field_simp
  rw [h4]; rw [h3, mul_sub] at h2; linarith

open Matrix in
/-- log det M <= tr M - d for positive definite M -/
theorem logdet_le_trace {d : Type*} [Fintype d] [DecidableEq d] (M : Matrix d d ℝ) (hM : M.PosDef) :
    Real.log M.det ≤ M.trace - Fintype.card d := by
  have hH := hM.isHermitian
  have hpos := hM.eigenvalues_pos
  have h1 : M.det = ∏ i, hH.eigenvalues i := by simpa using hH.det_eq_prod_eigenvalues
  have h2 : M.trace = ∑ i, hH.eigenvalues i := by simpa using hH.trace_eq_sum_eigenvalues
  rw [h1, h2, Real.log_prod (fun i _ => (hpos i).ne')]
  have : ∀ i ∈ univ, Real.log (hH.eigenvalues i) ≤ hH.eigenvalues i - 1 := fun i _ => Real.log_le_sub_one_of_pos (hpos i)
  refine (Finset.sum_le_sum this).trans ?_
  rw [Finset.sum_sub_distrib]; simp

open Matrix MatrixOrder ComplexOrder in
/-- M-step of full and tied covariances: -(log det V + tr(V⁻¹ S)) is largest at V = S -/
theorem covariance {d : Type*} [Fintype d] [DecidableEq d] (S V : Matrix d d ℝ) (hS : S.PosDef) (hV : V.PosDef) :
    -(Real.log V.det + (V⁻¹ * S).trace) ≤ -(Real.log S.det + (S⁻¹ * S).trace) := by
  obtain ⟨Q, hQ⟩ := CStarAlgebra.nonneg_iff_eq_star_mul_self.mp hV.inv.posSemidef.nonneg
  rw [Matrix.star_eq_conjTranspose] at hQ
  have hVu : IsUnit V.det := hV.det_pos.ne'.isUnit
  have hSu : IsUnit S.det := hS.det_pos.ne'.isUnit
  have hdet : Q.det ^ 2 * V.det = 1 := by
    have h1 : (V⁻¹).det = Q.det ^ 2 := by
      rw [hQ, Matrix.det_mul, Matrix.det_conjTranspose]; simp [sq]
    rw [← h1, ← Matrix.det_mul, Matrix.nonsing_inv_mul V hVu, Matrix.det_one]
  have hQd : Q.det ≠ 0 := by
    intro h; rw [h] at hdet; simp at hdet
  have hM : (Q * S * Qᴴ).PosDef := by
    refine hS.mul_mul_conjTranspose_same ?_
    exact Matrix.vecMul_injective_of_isUnit ((Matrix.isUnit_iff_isUnit_det Q).mpr hQd.isUnit)
  have h := logdet_le_trace _ hM
  have hd : (Q * S * Qᴴ).det = Q.det ^ 2 * S.det := by
    rw [Matrix.det_mul, Matrix.det_mul, Matrix.det_conjTranspose]; simp; ring
  have ht : (Q * S * Qᴴ).trace = (V⁻¹ * S).trace := by
    rw [Matrix.trace_mul_comm, ← Matrix.mul_assoc, hQ]
  have hl : Real.log (Q.det ^ 2) = -Real.log V.det := by
    have : Q.det ^ 2 = (V.det)⁻¹ := by field_simp [hV.det_pos.ne'] at hdet ⊢; linarith
    rw [this, Real.log_inv]
  rw [hd, Real.log_mul (pow_ne_zero 2 hQd) hS.det_pos.ne', hl, ht] at h
  rw [Matrix.nonsing_inv_mul S hSu, Matrix.trace_one]
  linarith

/-- the divergence of two normal laws is never negative -/
theorem kl_normal_nonneg (mq vq mp vp : ℝ) (hq : 0 < vq) (hp : 0 < vp) :
    0 ≤ Real.log (vp / vq) / 2 + ((mq - mp) ^ 2 + vq) / (2 * vp) - 1 / 2 := by
  have h := Real.log_le_sub_one_of_pos (div_pos hq hp)
  rw [Real.log_div hq.ne' hp.ne'] at h; rw [Real.log_div hp.ne' hq.ne']
  have e : ((mq - mp) ^ 2 + vq) / (2 * vp) = (mq - mp) ^ 2 / (2 * vp) + vq / vp / 2 := by field_simp
  have : 0 ≤ (mq - mp) ^ 2 / (2 * vp) := by positivity
  rw [e]; linarith

open Matrix in
/-- weighted means minimise the weighted squared distance in every metric -/
theorem mean_metric {ι d : Type*} [Fintype ι] [Fintype d] (P : Matrix d d ℝ) (hP : P.PosSemidef) (w : ι → ℝ) (x : ι → d → ℝ)
    (hW : 0 < ∑ i, w i) (m : d → ℝ) :
    let M : d → ℝ := (∑ i, w i)⁻¹ • ∑ i, w i • x i
    ∑ i, w i * ((x i - M) ⬝ᵥ P *ᵥ (x i - M)) ≤ ∑ i, w i * ((x i - m) ⬝ᵥ P *ᵥ (x i - m)) := by
  intro M
  have hM : ∑ i, w i • (x i - M) = 0 := by
    simp only [smul_sub, sum_sub_distrib, ← sum_smul, M, smul_smul]
    rw [← sum_mul, mul_inv_cancel₀ hW.ne', one_smul, sub_self]
  set v := M - m with hv
  have e : ∀ i, w i * ((x i - m) ⬝ᵥ P *ᵥ (x i - m)) =
      w i * ((x i - M) ⬝ᵥ P *ᵥ (x i - M)) + (w i • (x i - M)) ⬝ᵥ P *ᵥ v + v ⬝ᵥ P *ᵥ (w i • (x i - M)) + w i * (v ⬝ᵥ P *ᵥ v) := by
    intro i
    have : x i - m = (x i - M) + v := by rw [hv]; abel
    rw [this]
    simp only [Matrix.mulVec_add, dotProduct_add, add_dotProduct, Matrix.mulVec_smul, dotProduct_smul, smul_dotProduct, smul_eq_mul]
    ring
  have h1 : ∑ i, (w i • (x i - M)) ⬝ᵥ P *ᵥ v = 0 := by rw [← sum_dotProduct, hM, zero_dotProduct]
  have h2 : ∑ i, v ⬝ᵥ P *ᵥ (w i • (x i - M)) = 0 := by
    rw [← dotProduct_sum]
    have : ∑ i, P *ᵥ (w i • (x i - M)) = P *ᵥ (∑ i, w i • (x i - M)) := (map_sum (Matrix.mulVecLin P) _ _).symm
    rw [this, hM, Matrix.mulVec_zero, dotProduct_zero]
  rw [sum_congr rfl fun i _ => e i, sum_add_distrib, sum_add_distrib, sum_add_distrib, h1, h2, ← sum_mul]
  have hq : 0 ≤ v ⬝ᵥ P *ᵥ v := by simpa using hP.dotProduct_mulVec_nonneg v
  nlinarith [mul_nonneg hW.le hq]

open Matrix MatrixOrder ComplexOrder in
/-- the divergence of two multivariate normal laws is never negative -/
theorem kl_mvn_nonneg {d : Type*} [Fintype d] [DecidableEq d] (Vq Vp : Matrix d d ℝ) (hq : Vq.PosDef) (hp : Vp.PosDef) (δ : d → ℝ) :
    0 ≤ (1 / 2 : ℝ) * (Real.log Vp.det - Real.log Vq.det + (Vp⁻¹ * Vq).trace + δ ⬝ᵥ Vp⁻¹ *ᵥ δ - Fintype.card d) := by
  have h := covariance Vq Vp hq hp
  rw [Matrix.nonsing_inv_mul Vq hq.det_pos.ne'.isUnit, Matrix.trace_one] at h
  have h2 : 0 ≤ δ ⬝ᵥ Vp⁻¹ *ᵥ δ := by simpa using hp.inv.posSemidef.dotProduct_mulVec_nonneg δ
  linarith

end EM
