import Mathlib.Algebra.BigOperators.Group.Finset.Sigma
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.BigOperators.Field
import Mathlib.Data.Real.Basic
import Mathlib.Tactic.FieldSimp
import Mathlib.Tactic.Ring
import Mathlib.Tactic.Linarith
open Finset
/-- The contract of cgs (each vector is its original minus its projections onto the earlier results,
    which are not zero) implies that the results are pairwise orthogonal. -/
theorem gs (m n : ℕ) (v w : ℕ → ℕ → ℝ)
    (hw : ∀ j < m, ∀ i < n, w j i = v j i - ∑ k ∈ range j, (∑ u ∈ range n, w k u * v j u) * (∑ u ∈ range n, w k u * w k u)⁻¹ * w k i)
    (nz : ∀ k, k + 1 < m → (∑ u ∈ range n, w k u * w k u) ≠ 0) :
    ∀ j < m, ∀ l < j, ∑ i ∈ range n, w j i * w l i = 0 := by
  intro j
  induction j using Nat.strong_induction_on with
  | _ j ih =>
    intro hj l hl
    have e : ∑ i ∈ range n, w j i * w l i
        = ∑ i ∈ range n, v j i * w l i
          - ∑ k ∈ range j, ((∑ u ∈ range n, w k u * v j u) * (∑ u ∈ range n, w k u * w k u)⁻¹) * ∑ i ∈ range n, w k i * w l i := by
      have h1 : ∀ i ∈ range n, w j i * w l i = v j i * w l i
          - ∑ k ∈ range j, ((∑ u ∈ range n, w k u * v j u) * (∑ u ∈ range n, w k u * w k u)⁻¹) * (w k i * w l i) := by
        intro i hi
        rw [hw j hj i (mem_range.mp hi), sub_mul, sum_mul]
        congr 1
        apply sum_congr rfl
        intro k _
        ring
      rw [sum_congr rfl h1, sum_sub_distrib, sum_comm]
      congr 1
      apply sum_congr rfl
      intro k _
      rw [mul_sum]
    have s : ∑ k ∈ range j, ((∑ u ∈ range n, w k u * v j u) * (∑ u ∈ range n, w k u * w k u)⁻¹) * ∑ i ∈ range n, w k i * w l i
        = ((∑ u ∈ range n, w l u * v j u) * (∑ u ∈ range n, w l u * w l u)⁻¹) * ∑ i ∈ range n, w l i * w l i := by
      apply sum_eq_single_of_mem l (mem_range.mpr hl)
      intro k hk hkl
      have hkj := mem_range.mp hk
      rcases Nat.lt_or_gt_of_ne hkl with h | h
      · have := ih l hl (lt_trans hl hj) k h
        have c : ∑ i ∈ range n, w k i * w l i = 0 := by
          rw [← this]; apply sum_congr rfl; intro i _; ring
        rw [c, mul_zero]
      · rw [ih k hkj (lt_trans hkj hj) l h, mul_zero]
    rw [e, s, mul_assoc, inv_mul_cancel₀ (nz l (by omega)), mul_one]
    rw [sub_eq_zero]
    apply sum_congr rfl
    intro i _
    ring
