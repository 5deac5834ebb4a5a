/- Block exponential lemma used by ovc (lin.phi, lin.ShiftExp, specs/common.shifted_exponential).

   exp(M) = sum_m M^m / m!.  For M = [[Z, B], [0, K]]:
   * `pow_blocks`: the leading block of M^m is Z^m, its upper right block is sum_{i<m} Z^(m-1-i) B K^i;
   * `exp_upper_right`: with K^p = 0, the partial sums of the upper right block of exp(M) are the partial sums of
     sum_{i<p} phi_{i+1}(Z) B K^i, where phi_{i+1}(Z) = sum_q Z^q / (q+i+1)!  (term by term, for every truncation). -/
import Mathlib

open Matrix Finset

variable {n p : Type*} [Fintype n] [Fintype p] [DecidableEq n] [DecidableEq p]
variable (Z : Matrix n n ℝ) (B : Matrix n p ℝ) (K : Matrix p p ℝ)

theorem pow_blocks (m : ℕ) :
    (fromBlocks Z B 0 K) ^ m =
      fromBlocks (Z ^ m) (∑ i ∈ range m, Z ^ (m - 1 - i) * B * K ^ i) 0 (K ^ m) := by
  induction m with
  | zero => simp
  | succ m ih =>
    rw [pow_succ', ih, fromBlocks_multiply]
    congr 1
    · simp [pow_succ']
    · rw [sum_range_succ, Matrix.mul_sum]
      congr 1
      · apply sum_congr rfl
        intro i hi
        have : m + 1 - 1 - i = (m - 1 - i) + 1 := by
          have := mem_range.mp hi; omega
        rw [this, pow_succ']
        simp only [Matrix.mul_assoc]
      · simp
    · simp
    · simp [pow_succ']

/-- truncation of the exponential series after the powers m < N -/
noncomputable def expTrunc (M : Matrix (n ⊕ p) (n ⊕ p) ℝ) (N : ℕ) : Matrix (n ⊕ p) (n ⊕ p) ℝ :=
  ∑ m ∈ range N, (1 / (m.factorial : ℝ)) • M ^ m

/-- truncation of phi_k(Z) = sum_q Z^q / (q+k)! to the terms with q + k < N -/
noncomputable def phiTrunc (k N : ℕ) : Matrix n n ℝ :=
  ∑ q ∈ range (N - k), (1 / ((q + k).factorial : ℝ)) • Z ^ q

theorem exp_upper_left (N : ℕ) :
    (expTrunc (fromBlocks Z B 0 K) N).toBlocks₁₁ = phiTrunc Z 0 N := by
  ext a b
  simp [expTrunc, phiTrunc, pow_blocks, toBlocks₁₁, Matrix.sum_apply]

theorem exp_upper_right (N : ℕ) :
    (expTrunc (fromBlocks Z B 0 K) N).toBlocks₁₂ = ∑ i ∈ range N, phiTrunc Z (i + 1) N * B * K ^ i := by
  have h1 : (expTrunc (fromBlocks Z B 0 K) N).toBlocks₁₂
      = ∑ m ∈ range N, (1 / (m.factorial : ℝ)) • ∑ i ∈ range m, Z ^ (m - 1 - i) * B * K ^ i := by
    ext a b
    simp [expTrunc, pow_blocks, toBlocks₁₂, Matrix.sum_apply]
  rw [h1]
  simp only [phiTrunc, Finset.smul_sum, Matrix.sum_mul]
  rw [Finset.sum_sigma', Finset.sum_sigma']
  refine Finset.sum_bij' (fun x _ => ⟨x.2, x.1 - 1 - x.2⟩) (fun y _ => ⟨y.2 + (y.1 + 1), y.1⟩) ?_ ?_ ?_ ?_ ?_
  · rintro ⟨m, i⟩ h; simp only [mem_sigma, mem_range] at h ⊢; omega
  · rintro ⟨i, q⟩ h; simp only [mem_sigma, mem_range] at h ⊢; omega
  · rintro ⟨m, i⟩ h
    simp only [mem_sigma, mem_range] at h
    have : m - 1 - i + (i + 1) = m := by omega
    simp [this]
  · rintro ⟨i, q⟩ h
    have : q + (i + 1) - 1 - i = q := by omega
    simp
  · rintro ⟨m, i⟩ h
    simp only [mem_sigma, mem_range] at h
    have : m - 1 - i + (i + 1) = m := by omega
    simp [this, Matrix.smul_mul]

/-- K nilpotent of index q: only the first q terms remain -/
theorem exp_upper_right_nilpotent (N q : ℕ) (hK : K ^ q = 0) (hq : q ≤ N) :
    (expTrunc (fromBlocks Z B 0 K) N).toBlocks₁₂ = ∑ i ∈ range q, phiTrunc Z (i + 1) N * B * K ^ i := by
  rw [exp_upper_right]
  symm
  apply Finset.sum_subset (by intro x; simp only [mem_range]; omega)
  intro i _ hi
  have : q ≤ i := by simpa using hi
  have : K ^ i = 0 := by
    rw [← Nat.sub_add_cancel this, pow_add, hK, Matrix.mul_zero]
  simp [this]
