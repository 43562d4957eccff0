/-
Number-theoretic lemmas behind the C27 contracts.

1. `gcd_*`: the facts about the mathematical gcd that vc/solver.py instantiates (Solver.lemmas).
2. `lcm_*`: what c27_lcm asserts (gcd p r = g, p = g*a, r = g*b, result p*b) is the least common multiple.
3. `fold_*`: what c27_gcd_list / c27_lcm_list assert (the result is the left fold) is the gcd / lcm of all elements.

The numbers of the contracts are non-negative, so they are natural numbers here.
Checked with: lean contracts/lemmas.lean
-/
import Mathlib.Data.Nat.GCD.Basic
import Mathlib.Algebra.Order.Ring.Nat

theorem gcd_right_zero (x : Nat) : Nat.gcd x 0 = x := Nat.gcd_zero_right x

theorem gcd_left_zero (y : Nat) : Nat.gcd 0 y = y := Nat.gcd_zero_left y

theorem gcd_positive (x y : Nat) (h : 0 < x + y) : 1 ≤ Nat.gcd x y := by
  rcases Nat.eq_zero_or_pos x with hx | hx
  · have hy : 0 < y := by omega
    exact Nat.gcd_pos_of_pos_right x hy
  · exact Nat.gcd_pos_of_pos_left y hx

theorem gcd_step (x y : Nat) : Nat.gcd x y = Nat.gcd y (x % y) := by
  rw [Nat.gcd_comm x y, Nat.gcd_rec y x, Nat.gcd_comm]

theorem gcd_bounded (x y : Nat) (h : 0 < y) : Nat.gcd x y ≤ y := Nat.gcd_le_right x h

/-- `vc_gcd` is the greatest common divisor in the words of the property. -/
theorem gcd_is_greatest (x y : Nat) :
    Nat.gcd x y ∣ x ∧ Nat.gcd x y ∣ y ∧ ∀ d, d ∣ x → d ∣ y → d ∣ Nat.gcd x y :=
  ⟨Nat.gcd_dvd_left x y, Nat.gcd_dvd_right x y, fun _ => Nat.dvd_gcd⟩

/-- every pair of positive numbers has the form assumed by c27_lcm ... -/
theorem lcm_form (p r : Nat) (hp : 0 < p) :
    ∃ g a b, p = g * a ∧ r = g * b ∧ Nat.gcd p r = g ∧ 0 < g := by
  obtain ⟨a, ha⟩ := Nat.gcd_dvd_left p r
  obtain ⟨b, hb⟩ := Nat.gcd_dvd_right p r
  exact ⟨Nat.gcd p r, a, b, ha, hb, rfl, Nat.gcd_pos_of_pos_left r hp⟩

/-- ... and then `p * b` is the least common multiple. -/
theorem lcm_value (g a b p r : Nat) (hg : 0 < g) (_ : p = g * a) (hr : r = g * b)
    (h : Nat.gcd p r = g) : Nat.lcm p r = p * b := by
  unfold Nat.lcm
  rw [h, hr, Nat.mul_left_comm]
  exact Nat.mul_div_cancel_left _ hg

theorem lcm_is_least (p r m : Nat) (hm : 0 < m) (h1 : p ∣ m) (h2 : r ∣ m) :
    p ∣ Nat.lcm p r ∧ r ∣ Nat.lcm p r ∧ Nat.lcm p r ≤ m :=
  ⟨Nat.dvd_lcm_left p r, Nat.dvd_lcm_right p r, Nat.le_of_dvd hm (Nat.lcm_dvd h1 h2)⟩

/-- the fold over a list divides everything in it, and every common divisor divides the fold -/
theorem fold_gcd (l : List Nat) (s d : Nat) :
    d ∣ l.foldl Nat.gcd s ↔ d ∣ s ∧ ∀ x ∈ l, d ∣ x := by
  induction l generalizing s with
  | nil => simp
  | cons y t ih =>
    simp only [List.foldl_cons, ih, Nat.dvd_gcd_iff, List.mem_cons, forall_eq_or_imp]
    tauto

/-- the fold over a list is a multiple of everything in it and divides every common multiple -/
theorem fold_lcm (l : List Nat) (s m : Nat) :
    l.foldl Nat.lcm s ∣ m ↔ s ∣ m ∧ ∀ x ∈ l, x ∣ m := by
  induction l generalizing s with
  | nil => simp
  | cons y t ih =>
    simp only [List.foldl_cons, ih, Nat.lcm_dvd_iff, List.mem_cons, forall_eq_or_imp]
    tauto
