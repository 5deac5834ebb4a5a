import Mathlib

/-! C17: the angles (in turns) of the points on the circle.
`V` is any function with the two equations that the loop contract of `gen_leja_circle` establishes. -/

open Finset

variable {V : ℕ → ℝ}

/-- the equations established by the code: V 0 = 0, V (2^k + m) = V m + 1/2^(k+1) for m < 2^k -/
structure Angles (V : ℕ → ℝ) : Prop where
  zero : V 0 = 0
  next : ∀ k m, m < 2 ^ k → V (2 ^ k + m) = V m + 1 / 2 ^ (k + 1)

namespace Angles

theorem one (h : Angles V) : V 1 = 1 / 2 := by
  have := h.next 0 0 (by norm_num)
  simpa [h.zero] using this

/-- the power itself: V (2^k) = 1/2^(k+1), in (0, 1/2], so its principal square root has half the angle -/
theorem power (h : Angles V) (k : ℕ) : V (2 ^ k) = 1 / 2 ^ (k + 1) := by
  have := h.next k 0 (by positivity)
  simpa [h.zero] using this

theorem complement (h : Angles V) : ∀ k m, m < 2 ^ k → V m + V (2 ^ k - 1 - m) = 1 - 1 / 2 ^ k := by
  intro k
  induction k with
  | zero =>
    intro m hm
    have : m = 0 := by simpa using hm
    subst this
    simp [h.zero]
  | succ k ih =>
    intro m hm
    have hp : 2 ^ (k + 1) = 2 ^ k + 2 ^ k := by rw [pow_succ]; ring
    by_cases hlt : m < 2 ^ k
    · have e : 2 ^ (k + 1) - 1 - m = 2 ^ k + (2 ^ k - 1 - m) := by omega
      rw [e, h.next k _ (by omega)]
      have := ih m hlt
      have e2 : (1 : ℝ) / 2 ^ k = 2 * (1 / 2 ^ (k + 1)) := by rw [pow_succ]; field_simp
      linarith
    · obtain ⟨q, rfl⟩ : ∃ q, m = 2 ^ k + q := ⟨m - 2 ^ k, by omega⟩
      have hq : q < 2 ^ k := by omega
      have e : 2 ^ (k + 1) - 1 - (2 ^ k + q) = 2 ^ k - 1 - q := by omega
      rw [e, h.next k _ hq]
      have := ih q hq
      have e2 : (1 : ℝ) / 2 ^ k = 2 * (1 / 2 ^ (k + 1)) := by rw [pow_succ]; field_simp
      linarith

/-- the two points of a pair have angles that add up to a full turn: they are conjugate -/
theorem pair (h : Angles V) (k m : ℕ) (hm : m < 2 ^ k) : V (2 ^ k + m) + V (2 ^ (k + 1) - 1 - m) = 1 := by
  have hp : 2 ^ (k + 1) = 2 ^ k + 2 ^ k := by rw [pow_succ]; ring
  have e : 2 ^ (k + 1) - 1 - m = 2 ^ k + (2 ^ k - 1 - m) := by omega
  rw [e, h.next k _ hm, h.next k _ (by omega)]
  have := h.complement k m hm
  have e2 : (1 : ℝ) / 2 ^ k = 2 * (1 / 2 ^ (k + 1)) := by rw [pow_succ]; field_simp
  linarith

/-- an odd point is opposite to the even one before it -/
theorem odd (h : Angles V) : ∀ j, V (2 * j + 1) = V (2 * j) + 1 / 2 := by
  intro j
  induction j using Nat.strong_induction_on with
  | _ j ih =>
    rcases Nat.eq_zero_or_pos j with rfl | hj
    · simp [h.zero, h.one]
    · obtain ⟨k, hk1, hk2⟩ : ∃ k, 2 ^ k ≤ j ∧ j < 2 ^ (k + 1) :=
        ⟨Nat.log 2 j, Nat.pow_log_le_self 2 (by omega), Nat.lt_pow_succ_log_self (by norm_num) j⟩
      obtain ⟨q, rfl⟩ : ∃ q, j = 2 ^ k + q := ⟨j - 2 ^ k, by omega⟩
      have hp : 2 ^ (k + 1) = 2 * 2 ^ k := by rw [pow_succ]; ring
      have hq : q < 2 ^ k := by omega
      have e1 : 2 * (2 ^ k + q) + 1 = 2 ^ (k + 1) + (2 * q + 1) := by omega
      have e2 : 2 * (2 ^ k + q) = 2 ^ (k + 1) + 2 * q := by omega
      have hpos : 0 < 2 ^ k := by positivity
      rw [e1, e2, h.next (k + 1) _ (by omega), h.next (k + 1) _ (by omega), ih q (by omega)]
      ring

/-- every angle of the first 2^k points is a multiple of 1/2^k below 1 -/
theorem grid (h : Angles V) : ∀ k m, m < 2 ^ k → ∃ j : ℕ, j < 2 ^ k ∧ V m = j / 2 ^ k := by
  intro k
  induction k with
  | zero =>
    intro m hm
    have hm0 : m = 0 := by simpa using hm
    subst hm0
    exact ⟨0, by norm_num, by simp [h.zero]⟩
  | succ k ih =>
    intro m hm
    have hp : 2 ^ (k + 1) = 2 * 2 ^ k := by rw [pow_succ]; ring
    by_cases hlt : m < 2 ^ k
    · obtain ⟨j, hj, e⟩ := ih m hlt
      refine ⟨2 * j, by omega, ?_⟩
      rw [e, pow_succ]; push_cast; field_simp
    · obtain ⟨q, rfl⟩ : ∃ q, m = 2 ^ k + q := ⟨m - 2 ^ k, by omega⟩
      obtain ⟨j, hj, e⟩ := ih q (by omega)
      refine ⟨2 * j + 1, by omega, ?_⟩
      rw [h.next k q (by omega), e, pow_succ]; push_cast; field_simp

/-- the points are distinct -/
theorem injOn (h : Angles V) : ∀ k, Set.InjOn V {m | m < 2 ^ k} := by
  intro k
  induction k with
  | zero => intro a ha b hb _; simp only [Set.mem_ofPred_eq, pow_zero] at ha hb; omega
  | succ k ih =>
    have hp : 2 ^ (k + 1) = 2 ^ k + 2 ^ k := by rw [pow_succ]; ring
    have low : ∀ a b, a < 2 ^ k → b < 2 ^ k → V a ≠ V b + 1 / 2 ^ (k + 1) := by
      intro a b ha hb e
      obtain ⟨i, _, hi⟩ := h.grid k a ha
      obtain ⟨j, _, hj⟩ := h.grid k b hb
      rw [hi, hj, pow_succ] at e
      have : (2 * i : ℝ) = 2 * j + 1 := by field_simp at e; linarith
      have : 2 * i = 2 * j + 1 := by exact_mod_cast this
      omega
    intro a ha b hb e
    simp only [Set.mem_ofPred_eq] at ha hb
    by_cases h1 : a < 2 ^ k <;> by_cases h2 : b < 2 ^ k
    · exact ih h1 h2 e
    · obtain ⟨q, rfl⟩ : ∃ q, b = 2 ^ k + q := ⟨b - 2 ^ k, by omega⟩
      rw [h.next k q (by omega)] at e
      exact absurd e (low a q h1 (by omega))
    · obtain ⟨q, rfl⟩ : ∃ q, a = 2 ^ k + q := ⟨a - 2 ^ k, by omega⟩
      rw [h.next k q (by omega)] at e
      exact absurd e.symm (low b q h2 (by omega))
    · obtain ⟨p, rfl⟩ : ∃ p, a = 2 ^ k + p := ⟨a - 2 ^ k, by omega⟩
      obtain ⟨q, rfl⟩ : ∃ q, b = 2 ^ k + q := ⟨b - 2 ^ k, by omega⟩
      rw [h.next k p (by omega), h.next k q (by omega)] at e
      have : p = q := ih (show p < 2 ^ k by omega) (show q < 2 ^ k by omega) (by linarith)
      omega

/-- the first 2^k points are the roots of unity of that order: their angles are exactly 0, 1/2^k, .., (2^k-1)/2^k -/
theorem roots (h : Angles V) (k : ℕ) : image V (range (2 ^ k)) = image (fun j : ℕ => (j : ℝ) / 2 ^ k) (range (2 ^ k)) := by
  apply eq_of_subset_of_card_le
  · intro x hx
    obtain ⟨m, hm, rfl⟩ := mem_image.1 hx
    obtain ⟨j, hj, e⟩ := h.grid k m (mem_range.1 hm)
    exact mem_image.2 ⟨j, mem_range.2 hj, e.symm⟩
  · calc (image (fun j : ℕ => (j : ℝ) / 2 ^ k) (range (2 ^ k))).card ≤ (range (2 ^ k)).card := card_image_le
      _ = (image V (range (2 ^ k))).card := by
        rw [card_image_of_injOn]
        intro a ha b hb e
        exact h.injOn k (by simpa using ha) (by simpa using hb) e

/-- the points kept from a block (one of each conjugate pair) lie at 4j + 1 times 1/2^(k+2) of a turn -/
theorem kept (h : Angles V) (k m : ℕ) (hm : m < 2 ^ k) : ∃ j : ℕ, V (2 ^ (k + 1) + m) = (4 * j + 1) / 2 ^ (k + 2) := by
  obtain ⟨j, _, e⟩ := h.grid k m hm
  refine ⟨j, ?_⟩
  rw [h.next (k + 1) m (by rw [pow_succ]; omega), e, pow_succ, pow_succ]
  field_simp
  ring

/-- no two of them have the same cosine or the same sine: their angles never add up to 1/2, 1 or 3/2 turns -/
theorem no_mirror (h : Angles V) (k l m q c : ℕ) (hk : 1 ≤ k) (hkl : k ≤ l) (hm : m < 2 ^ k) (hq : q < 2 ^ l) :
    V (2 ^ (k + 1) + m) + V (2 ^ (l + 1) + q) ≠ c / 2 := by
  obtain ⟨i, hi⟩ := h.kept k m hm
  obtain ⟨j, hj⟩ := h.kept l q hq
  obtain ⟨d, rfl⟩ : ∃ d, l = k + d := ⟨l - k, by omega⟩
  obtain ⟨r, rfl⟩ : ∃ r, k = r + 1 := ⟨k - 1, by omega⟩
  intro e
  rw [hi, hj] at e
  have e1 : ((4 * i + 1) * 2 ^ d + (4 * j + 1) : ℝ) = c * 2 ^ (r + 1 + d + 1) := by
    have a1 : (2 : ℝ) ^ (r + 1 + d + 2) = 2 ^ (r + 1 + 2) * 2 ^ d := by rw [← pow_add]; congr 1; omega
    have a2 : (2 : ℝ) ^ (r + 1 + d + 2) = 2 * 2 ^ (r + 1 + d + 1) := by rw [pow_succ]; ring
    have p1 : (2 : ℝ) ^ (r + 1 + 2) ≠ 0 := by positivity
    have p2 : (2 : ℝ) ^ d ≠ 0 := by positivity
    have e2 : ((4 * i + 1) / 2 ^ (r + 1 + 2) + (4 * j + 1) / 2 ^ (r + 1 + d + 2) : ℝ) * 2 ^ (r + 1 + d + 2)
        = (4 * i + 1) * 2 ^ d + (4 * j + 1) := by
      rw [a1]; field_simp
    rw [← e2, e, a2]; ring
  have e3 : (4 * i + 1) * 2 ^ d + (4 * j + 1) = c * 2 ^ (r + 1 + d + 1) := by exact_mod_cast e1
  have e4 : c * 2 ^ (r + 1 + d + 1) = 4 * (c * 2 ^ (r + d)) := by
    have : r + 1 + d + 1 = (r + d) + 2 := by omega
    rw [this, pow_add]; ring
  rcases Nat.eq_zero_or_pos d with rfl | hd
  · simp only [pow_zero] at e3 e4; omega
  · obtain ⟨t, rfl⟩ : ∃ t, d = t + 1 := ⟨d - 1, by omega⟩
    have e5 : (4 * i + 1) * 2 ^ (t + 1) = 2 * ((4 * i + 1) * 2 ^ t) := by rw [pow_succ]; ring
    omega

end Angles

/-- the reordering of a block of 2^k points (position 2m holds point m, position 2m+1 holds point 2^k-1-m) permutes it -/
theorem reorder_perm (k : ℕ) (hk : 1 ≤ k) :
    image (fun p => if p % 2 = 0 then p / 2 else 2 ^ k - 1 - p / 2) (range (2 ^ k)) = range (2 ^ k) := by
  obtain ⟨l, rfl⟩ : ∃ l, k = l + 1 := ⟨k - 1, by omega⟩
  have hp : 2 ^ (l + 1) = 2 * 2 ^ l := by rw [pow_succ]; ring
  ext x
  simp only [mem_image, mem_range]
  constructor
  · rintro ⟨p, hp1, rfl⟩
    split_ifs <;> omega
  · intro hx
    by_cases h : x < 2 ^ l
    · exact ⟨2 * x, by omega, by simp⟩
    · refine ⟨2 * (2 ^ (l + 1) - 1 - x) + 1, by omega, ?_⟩
      have : (2 * (2 ^ (l + 1) - 1 - x) + 1) % 2 ≠ 0 := by omega
      simp only [this, if_false]
      omega
