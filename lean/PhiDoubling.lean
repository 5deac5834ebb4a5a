/- Doubling lemma used by specs/C08: phi_j(2V) = 2^(-j) (phi_0(V) phi_j(V) + sum_{l=1..j} phi_l(V)/(j-l)!),
   coefficient of V^q on both sides, phi_k(V) = sum_q V^q/(q+k)!. -/
import Mathlib

open Finset Nat

theorem doubling_coefficient (q j : ℕ) :
    (2 : ℝ) ^ j * (2 ^ q / (q + j)! ) =
      (∑ a ∈ range (q + 1), 1 / (a ! : ℝ) * (1 / ((q - a + j)! : ℝ)))
        + ∑ l ∈ range j, 1 / ((q + (l + 1))! : ℝ) * (1 / ((j - (l + 1))! : ℝ)) := by
  have key : ∀ x ∈ range (q + j + 1), (1 / (x ! : ℝ)) * (1 / ((q + j - x)! : ℝ)) = ((q + j).choose x : ℝ) / (q + j)! := by
    intro x hx
    have hx' : x ≤ q + j := by have := mem_range.mp hx; omega
    rw [Nat.cast_choose ℝ hx']
    field_simp
  have tot : (∑ x ∈ range (q + j + 1), (1 / (x ! : ℝ)) * (1 / ((q + j - x)! : ℝ))) = 2 ^ (q + j) / (q + j)! := by
    rw [sum_congr rfl key, ← sum_div]
    congr 1
    exact_mod_cast Nat.sum_range_choose (q + j)
  have split : q + j + 1 = (q + 1) + j := by omega
  rw [split, sum_range_add] at tot
  rw [← mul_div_assoc, ← pow_add, Nat.add_comm j q, ← tot]
  congr 1
  · apply sum_congr rfl
    intro a ha
    have : q + j - a = q - a + j := by have := mem_range.mp ha; omega
    rw [this]
  · apply sum_congr rfl
    intro l hl
    have h1 : q + 1 + l = q + (l + 1) := by omega
    have h2 : q + j - (q + (l + 1)) = j - (l + 1) := by omega
    rw [h1, h2]
