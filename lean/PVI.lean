import Mathlib.MeasureTheory.Integral.IntervalIntegral.Basic
import Mathlib.Analysis.SpecialFunctions.Integrals.Basic
import PV
namespace PV
open intervalIntegral MeasureTheory

/-- one cell of the midpoint rule -/
theorem midpoint_cell (f : ℝ → ℝ) (g M m d : ℝ) (hd : 0 ≤ d) (hi : IntervalIntegrable f volume (m - d) (m + d))
    (hq : ∀ x, m - d ≤ x → x ≤ m + d → |f x - f m - g * (x - m)| ≤ M / 2 * (x - m) ^ 2) :
    |f m * (2 * d) - ∫ x in (m - d)..(m + d), f x| ≤ M * (2 * d) ^ 3 / 24 := by
  have hle : m - d ≤ m + d := by linarith
  have e1 : ∫ x in (m - d)..(m + d), (f x - f m - g * (x - m)) = (∫ x in (m - d)..(m + d), f x) - f m * (2 * d) := by
    have hc : IntervalIntegrable (fun x : ℝ => f m + g * (x - m)) volume (m - d) (m + d) := (Continuous.intervalIntegrable (by fun_prop) _ _)
    have : (fun x => f x - f m - g * (x - m)) = fun x => f x - (f m + g * (x - m)) := by funext x; ring
    rw [this, intervalIntegral.integral_sub hi hc]
    have : ∫ x in (m - d)..(m + d), (f m + g * (x - m)) = f m * (2 * d) := by
      rw [intervalIntegral.integral_add (by simp) (Continuous.intervalIntegrable (by fun_prop) _ _), intervalIntegral.integral_const_mul, intervalIntegral.integral_sub (by simp) (by simp)]
      simp; ring
    rw [this]
  have e2 : ∫ x in (m - d)..(m + d), M / 2 * (x - m) ^ 2 = M * (2 * d) ^ 3 / 24 := by
    rw [intervalIntegral.integral_const_mul, intervalIntegral.integral_comp_sub_right (fun x => x ^ 2) m]
    simp; ring
  rw [abs_sub_comm, ← e1, ← e2]
  have hb : IntervalIntegrable (fun x : ℝ => M / 2 * (x - m) ^ 2) volume (m - d) (m + d) := Continuous.intervalIntegrable (by fun_prop) _ _
  have := intervalIntegral.norm_integral_le_of_norm_le (f := fun x => f x - f m - g * (x - m)) (g := fun x => M / 2 * (x - m) ^ 2) (μ := volume) hle
    (Filter.Eventually.of_forall (fun x hx => by rw [Real.norm_eq_abs]; exact hq x (le_of_lt hx.1) hx.2)) hb
  simpa [Real.norm_eq_abs] using this

/-- error of the midpoint rule for integrands with a quadratic bound (second derivative at most M) -/
theorem midpoint_error (f g : ℝ → ℝ) (a b M : ℝ) (n : ℤ) (hn : 0 < n) (hab : a ≤ b) (hi : IntervalIntegrable f volume a b)
    (hq : ∀ m x, a ≤ m → m ≤ b → a ≤ x → x ≤ b → |f x - f m - g m * (x - m)| ≤ M / 2 * (x - m) ^ 2) :
    |sum n (fun k => f (a + ((1 / 2 : ℝ) + ((k : ℤ) : ℝ)) * ((b - a) / (n : ℝ)))) * ((b - a) / (n : ℝ)) - ∫ x in a..b, f x|
      ≤ M * (b - a) ^ 3 / (24 * (n : ℝ) ^ 2) := by
  obtain ⟨N, rfl⟩ := Int.eq_ofNat_of_zero_le hn.le
  have hN : 0 < N := by exact_mod_cast hn
  have hNr : (0 : ℝ) < N := by exact_mod_cast hN
  set h : ℝ := (b - a) / N with hh
  have hh0 : 0 ≤ h := by rw [hh]; exact div_nonneg (by linarith) hNr.le
  have hNh : (N : ℝ) * h = b - a := by rw [hh]; field_simp
  set p : ℕ → ℝ := fun k => a + k * h with hp
  have hmono : ∀ k, k ≤ N → a ≤ p k ∧ p k ≤ b := by
    intro k hk
    have hk' : (k : ℝ) ≤ N := by exact_mod_cast hk
    have : (k : ℝ) * h ≤ N * h := mul_le_mul_of_nonneg_right hk' hh0
    have : 0 ≤ (k : ℝ) * h := by positivity
    simp only [hp]; constructor <;> linarith
  have hint : ∀ k < N, IntervalIntegrable f volume (p k) (p (k + 1)) := by
    intro k hk
    refine hi.mono_set ?_
    have h1 := hmono k hk.le
    have h2 := hmono (k + 1) hk
    rw [Set.uIcc_of_le hab]
    exact Set.uIcc_subset_Icc ⟨h1.1, h1.2⟩ ⟨h2.1, h2.2⟩
  have hsum : ∑ k ∈ Finset.range N, ∫ x in p k..p (k + 1), f x = ∫ x in a..b, f x := by
    rw [intervalIntegral.sum_integral_adjacent_intervals hint]
    congr 1 <;> simp [hp]; linarith
  have hcast : (((N : ℤ) : ℤ) : ℝ) = (N : ℝ) := by simp
  simp only [sum, Int.toNat_natCast, Int.cast_natCast]
  rw [← hsum, Finset.sum_mul, ← Finset.sum_sub_distrib]
  refine (Finset.abs_sum_le_sum_abs _ _).trans ?_
  have hcell : ∀ k ∈ Finset.range N, |f (a + (1 / 2 + (k : ℝ)) * h) * h - ∫ x in p k..p (k + 1), f x| ≤ M * h ^ 3 / 24 := by
    intro k hk
    have hk := Finset.mem_range.mp hk
    have h1 := hmono k hk.le
    have h2 := hmono (k + 1) hk
    have c1 : p k = a + (1 / 2 + (k : ℝ)) * h - h / 2 := by simp only [hp]; ring
    have c2 : p (k + 1) = a + (1 / 2 + (k : ℝ)) * h + h / 2 := by simp only [hp]; push_cast; ring
    have key := midpoint_cell f (g (a + (1 / 2 + (k : ℝ)) * h)) M (a + (1 / 2 + (k : ℝ)) * h) (h / 2) (by linarith) (by rw [← c1, ← c2]; exact hint k hk)
      (fun x hx1 hx2 => hq _ _ (by linarith) (by linarith) (by linarith) (by linarith))
    rw [← c1, ← c2] at key
    have : 2 * (h / 2) = h := by ring
    rw [this] at key
    exact key
  refine (Finset.sum_le_sum hcell).trans (le_of_eq ?_)
  rw [Finset.sum_const, Finset.card_range, nsmul_eq_mul, hh]
  field_simp

theorem sum_cast (n : ℤ) (hn : 0 ≤ n) : sum n (fun k => ((k : ℤ) : ℝ)) = (n : ℝ) * ((n : ℝ) - 1) / 2 := by
  obtain ⟨N, rfl⟩ := Int.eq_ofNat_of_zero_le hn
  simp only [sum, Int.toNat_natCast, Int.cast_natCast]
  induction N with
  | zero => simp
  | succ m ih => rw [Finset.sum_range_succ, ih (by positivity)]; push_cast; ring

/-- the midpoint rule is exact for affine integrands -/
theorem midpoint_affine (p q a b : ℝ) (n : ℤ) (hn : 0 < n) :
    sum n (fun k => p + q * (a + ((1 / 2 : ℝ) + ((k : ℤ) : ℝ)) * ((b - a) / (n : ℝ)))) * ((b - a) / (n : ℝ)) = p * (b - a) + q * (b ^ 2 - a ^ 2) / 2 := by
  have h0 : (0 : ℝ) < n := by exact_mod_cast hn
  have : (fun k : ℕ => p + q * (a + ((1 / 2 : ℝ) + ((k : ℤ) : ℝ)) * ((b - a) / (n : ℝ)))) =
      fun k : ℕ => (p + q * (a + (b - a) / (2 * (n : ℝ)))) + (q * ((b - a) / (n : ℝ))) * ((k : ℤ) : ℝ) := by funext k; field_simp; ring
  rw [this, sum_add, sum_mul_left, sum_cast n hn.le]
  have hc : sum n (fun _ => p + q * (a + (b - a) / (2 * (n : ℝ)))) = (n : ℝ) * (p + q * (a + (b - a) / (2 * (n : ℝ)))) := by
    obtain ⟨N, rfl⟩ := Int.eq_ofNat_of_zero_le hn.le
    simp [sum]; ring
  rw [hc]; field_simp; ring
end PV
