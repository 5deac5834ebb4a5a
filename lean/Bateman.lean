/- Lemma used by specs/C19: the amounts n0 Weight(c) Terms(c+1, c+1)(t) of the contract of
   analytic_bateman_single_parent solve the decay equations of a chain of any length, and start from n0 of the parent.
   Weight, Gaps and Terms are defined by the recursions the loop contracts prove of the code. -/
import Mathlib

open Finset

noncomputable section

variable (lam : ℕ → ℝ)

def Weight : ℕ → ℝ
  | 0 => 1
  | i + 1 => Weight i * lam i

def Gaps (i : ℕ) : ℕ → ℝ
  | 0 => 1
  | j + 1 => if j = i then Gaps i j else Gaps i j * (lam j - lam i)

def Terms (n : ℕ) : ℕ → ℝ → ℝ
  | 0, _ => 0
  | i + 1, t => Terms n i t + Real.exp (-lam i * t) / Gaps lam i n

def Amount (n0 : ℝ) (c : ℕ) (t : ℝ) : ℝ := n0 * Weight lam c * Terms lam (c + 1) (c + 1) t

theorem gaps_ne (h : Function.Injective lam) (i j : ℕ) : Gaps lam i j ≠ 0 := by
  induction j with
  | zero => simp [Gaps]
  | succ j ih =>
    unfold Gaps
    split_ifs with hj
    · exact ih
    · exact mul_ne_zero ih (sub_ne_zero.mpr fun e => hj (h e))

theorem gaps_prod (i n : ℕ) : Gaps lam i n = ∏ j ∈ (range n).erase i, (lam j - lam i) := by
  induction n with
  | zero => simp [Gaps]
  | succ n ih =>
    unfold Gaps
    rw [range_add_one]
    split_ifs with hn
    · subst hn
      rw [ih]
      simp [erase_insert_eq_erase]
    · rw [erase_insert_of_ne (fun e => hn e), prod_insert (by simp), ih, mul_comm]

theorem terms_sum (n i : ℕ) (t : ℝ) : Terms lam n i t = ∑ k ∈ range i, Real.exp (-lam k * t) / Gaps lam k n := by
  induction i with
  | zero => simp [Terms]
  | succ i ih => rw [Terms, sum_range_succ, ih]

/-- the decay equation of the parent -/
theorem decay_parent (n0 t : ℝ) : HasDerivAt (Amount lam n0 0) (-lam 0 * Amount lam n0 0 t) t := by
  have e : Amount lam n0 0 = fun t => n0 * Real.exp (-lam 0 * t) := by
    funext t; simp [Amount, Weight, Terms, Gaps]
  rw [e]
  have := ((hasDerivAt_id t).const_mul (-lam 0)).exp.const_mul n0
  have v : -lam 0 * (n0 * Real.exp (-lam 0 * t)) = n0 * (Real.exp (-lam 0 * id t) * (-lam 0 * 1)) := by
    simp only [id]; ring
  rw [v]
  exact this

/-- the decay equation of every daughter -/
theorem decay_daughter (h : Function.Injective lam) (n0 t : ℝ) (c : ℕ) :
    HasDerivAt (Amount lam n0 (c + 1)) (lam c * Amount lam n0 c t - lam (c + 1) * Amount lam n0 (c + 1) t) t := by
  have e : Amount lam n0 (c + 1) =
      fun t => n0 * Weight lam (c + 1) * ∑ k ∈ range (c + 2), Real.exp (-lam k * t) / Gaps lam k (c + 2) := by
    funext t; simp only [Amount, terms_sum]
  have d : HasDerivAt (fun t => n0 * Weight lam (c + 1) * ∑ k ∈ range (c + 2), Real.exp (-lam k * t) / Gaps lam k (c + 2))
      (n0 * Weight lam (c + 1) * ∑ k ∈ range (c + 2), (Real.exp (-lam k * t) * -lam k) / Gaps lam k (c + 2)) t := by
    apply HasDerivAt.const_mul
    apply HasDerivAt.fun_sum
    intro k _
    have := ((hasDerivAt_id t).const_mul (-lam k)).exp.div_const (Gaps lam k (c + 2))
    simpa using this
  rw [e]
  convert d using 1
  simp only [Amount, terms_sum, Weight]
  have g : ∀ k ∈ range (c + 1), Gaps lam k (c + 1 + 1) = Gaps lam k (c + 1) * (lam (c + 1) - lam k) := by
    intro k hk
    have : c + 1 ≠ k := by have := mem_range.mp hk; omega
    rw [Gaps, if_neg this]
  have key : ∑ k ∈ range (c + 1), Real.exp (-lam k * t) / Gaps lam k (c + 1) =
      ∑ k ∈ range (c + 2), (lam (c + 1) - lam k) * (Real.exp (-lam k * t) / Gaps lam k (c + 2)) := by
    rw [sum_range_succ _ (c + 1)]
    simp only [sub_self, zero_mul, add_zero]
    apply sum_congr rfl
    intro k hk
    have hk' : lam (c + 1) - lam k ≠ 0 := sub_ne_zero.mpr fun e => by
      have := h e; have := mem_range.mp hk; omega
    have hg := gaps_ne lam h k (c + 1)
    rw [g k hk]
    field_simp
  rw [key]
  have s : ∑ k ∈ range (c + 2), (Real.exp (-lam k * t) * -lam k) / Gaps lam k (c + 2) =
      ∑ k ∈ range (c + 2), (lam (c + 1) - lam k) * (Real.exp (-lam k * t) / Gaps lam k (c + 2)) -
        lam (c + 1) * ∑ k ∈ range (c + 2), Real.exp (-lam k * t) / Gaps lam k (c + 2) := by
    rw [mul_sum, ← sum_sub_distrib]
    apply sum_congr rfl
    intro k _
    ring
  rw [s]
  have : c + 1 + 1 = c + 2 := rfl
  rw [this]
  ring

/-- the initial amounts -/
theorem initial_parent (n0 : ℝ) : Amount lam n0 0 0 = n0 := by
  simp [Amount, Weight, Terms, Gaps]

theorem initial_daughter (h : Function.Injective lam) (n0 : ℝ) (c : ℕ) : Amount lam n0 (c + 1) 0 = 0 := by
  have z : ∑ k ∈ range (c + 2), 1 / Gaps lam k (c + 2) = 0 := by
    have hs : Set.InjOn (fun k => -lam k) (range (c + 2) : Set ℕ) := fun a _ b _ e => h (neg_injective e)
    have hd : (1 : Polynomial ℝ).degree < ((#(range (c + 2)) : ℕ) : WithBot ℕ) := by
      rw [Polynomial.degree_one, card_range]; exact_mod_cast Nat.succ_pos _
    have hc := Lagrange.coeff_eq_sum hs hd
    rw [card_range] at hc
    have h0 : (1 : Polynomial ℝ).coeff (c + 2 - 1) = 0 := by
      rw [Polynomial.coeff_one]; simp
    rw [h0] at hc
    rw [hc]
    apply sum_congr rfl
    intro k _
    rw [gaps_prod]
    simp only [Polynomial.eval_one]
    congr 1
    apply prod_congr rfl
    intro j _
    ring
  simp [Amount, terms_sum] 
  right
  simpa using z

/-- entry (r, i) of the matrix after the first b branches of species i, as proved of gen_bateman_matrix -/
def Entry (child : ℕ → Option ℕ) (i r : ℕ) : ℕ → ℝ
  | 0 => 0
  | b + 1 => Entry child i r b + ((if child b = some r then lam b else 0) - (if r = i then lam b else 0))

/-- conservation: the sum of a column is what leaves the system, for any number of species and branches -/
theorem column_sum (d : ℕ) (child : ℕ → Option ℕ) (i n : ℕ) (hi : i < d) (hc : ∀ b c, child b = some c → c < d) :
    ∑ r ∈ range d, Entry lam child i r n = -∑ b ∈ range n, (if child b = none then lam b else 0) := by
  induction n with
  | zero => simp [Entry]
  | succ n ih =>
    simp only [Entry]
    rw [sum_add_distrib, ih, sum_range_succ, sum_sub_distrib, sum_ite_eq' (range d) i, if_pos (mem_range.mpr hi)]
    cases hn : child n with
    | none => simp; ring
    | some c =>
      have := hc n c hn
      simp [this]

end
