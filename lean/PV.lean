/- Ghost library: mathematical reading of the operations the extractor emits, with the lemmas the
   generated proofs use.  No axioms, no sorry: everything here is checked by the Lean kernel on every run. -/
import Mathlib.Tactic.Ring
import Mathlib.Tactic.FunProp
import Mathlib.Tactic.FieldSimp
import Mathlib.Tactic.Positivity
import Mathlib.Tactic.Linarith
import Mathlib.Tactic.LinearCombination
import Mathlib.Analysis.SpecialFunctions.Pow.Deriv
import Mathlib.Analysis.SpecialFunctions.Log.Deriv
import Mathlib.Analysis.SpecialFunctions.ExpDeriv
import Mathlib.Analysis.SpecialFunctions.Sqrt
import Mathlib.Analysis.SpecialFunctions.Arsinh
import Mathlib.Analysis.SpecialFunctions.Trigonometric.DerivHyp
import Mathlib.Algebra.BigOperators.Intervals

namespace PV

/-- finite sum over 0 ≤ k < n (empty when n ≤ 0), the reading of an iterator sum -/
noncomputable def sum (n : ℤ) (f : ℕ → ℝ) : ℝ := ∑ k ∈ Finset.range n.toNat, f k

/-- finite product over 0 ≤ k < n -/
noncomputable def prod {R : Type} [CommMonoid R] (n : ℤ) (f : ℕ → R) : R := ∏ k ∈ Finset.range n.toNat, f k

theorem sum_congr {n m : ℤ} {f g : ℕ → ℝ} (h : n = m) (hf : ∀ k : ℕ, 0 ≤ (k : ℤ) → (k : ℤ) < n → f k = g k) :
    sum n f = sum m g := by
  subst h
  unfold sum
  refine Finset.sum_congr rfl (fun k hk => hf k (by positivity) ?_)
  have := Finset.mem_range.mp hk
  omega

theorem prod_congr {R : Type} [CommMonoid R] {n m : ℤ} {f g : ℕ → R} (h : n = m) (hf : ∀ k : ℕ, 0 ≤ (k : ℤ) → (k : ℤ) < n → f k = g k) :
    prod n f = prod m g := by
  subst h
  unfold prod
  refine Finset.prod_congr rfl (fun k hk => hf k (by positivity) ?_)
  have := Finset.mem_range.mp hk
  omega

theorem sum_mul_left (n : ℤ) (c : ℝ) (f : ℕ → ℝ) : sum n (fun k => c * f k) = c * sum n f := by
  unfold sum; rw [Finset.mul_sum]

theorem sum_add (n : ℤ) (f g : ℕ → ℝ) : sum n (fun k => f k + g k) = sum n f + sum n g := by
  unfold sum; rw [Finset.sum_add_distrib]

theorem sum_lin {n : ℤ} {c R : ℝ} {g r : ℕ → ℝ} (h : sum n r = R) : sum n (fun k => c * g k + r k) = c * sum n g + R := by
  rw [sum_add, sum_mul_left, h]
theorem sum_last {n : ℤ} {c : ℝ} {g : ℕ → ℝ} : sum n (fun k => c * g k) = c * sum n g := sum_mul_left _ _ _

theorem sum_pos {n : ℤ} {f : ℕ → ℝ} (hn : 0 < n) (hf : ∀ k : ℕ, 0 ≤ (k : ℤ) → (k : ℤ) < n → 0 < f k) : 0 < sum n f := by
  unfold sum
  refine Finset.sum_pos (fun k hk => hf k (by positivity) ?_) ?_
  · have := Finset.mem_range.mp hk; omega
  · refine ⟨0, Finset.mem_range.mpr ?_⟩; omega

theorem sum_hasDerivAt {n : ℤ} {f : ℕ → ℝ → ℝ} {f' : ℕ → ℝ} {x : ℝ}
    (h : ∀ k : ℕ, 0 ≤ (k : ℤ) → (k : ℤ) < n → HasDerivAt (f k) (f' k) x) :
    HasDerivAt (fun y => sum n (fun k => f k y)) (sum n f') x := by
  unfold sum
  refine HasDerivAt.fun_sum (fun k hk => h k (by positivity) ?_)
  have := Finset.mem_range.mp hk
  omega

/-- conditional expression -/
noncomputable def ite (c : Prop) (a b : ℝ) : ℝ := @_root_.ite _ c (Classical.propDecidable c) a b

theorem ite_pos {c : Prop} (h : c) (a b : ℝ) : ite c a b = a := by unfold ite; exact if_pos h
theorem ite_neg {c : Prop} (h : ¬c) (a b : ℝ) : ite c a b = b := by unfold ite; exact if_neg h
theorem ite_congr {c d : Prop} {a b a' b' : ℝ} (h : c ↔ d) (ha : d → a = a') (hb : ¬d → b = b') :
    ite c a b = ite d a' b' := by
  by_cases hd : d
  · rw [ite_pos (h.mpr hd), ite_pos hd, ha hd]
  · rw [ite_neg (fun hc => hd (h.mp hc)), ite_neg hd, hb hd]

/-- conditional expression over integers -/
noncomputable def iteZ (c : Prop) (a b : ℤ) : ℤ := @_root_.ite _ c (Classical.propDecidable c) a b
theorem iteZ_pos {c : Prop} (h : c) (a b : ℤ) : iteZ c a b = a := by unfold iteZ; exact if_pos h
theorem iteZ_neg {c : Prop} (h : ¬c) (a b : ℤ) : iteZ c a b = b := by unfold iteZ; exact if_neg h
theorem iteZ_congr {c d : Prop} {a b a' b' : ℤ} (h : c ↔ d) (ha : d → a = a') (hb : ¬d → b = b') :
    iteZ c a b = iteZ d a' b' := by
  by_cases hd : d
  · rw [iteZ_pos (h.mpr hd), iteZ_pos hd, ha hd]
  · rw [iteZ_neg (fun hc => hd (h.mp hc)), iteZ_neg hd, hb hd]

theorem sinh_exp (x : ℝ) : Real.sinh x = (Real.exp x - (Real.exp x)⁻¹) / 2 := by
  rw [Real.sinh_eq, Real.exp_neg]
theorem cosh_exp (x : ℝ) : Real.cosh x = (Real.exp x + (Real.exp x)⁻¹) / 2 := by
  rw [Real.cosh_eq, Real.exp_neg]

theorem log_mul' {a b x y : ℝ} (ha : a ≠ 0) (hb : b ≠ 0) (p : Real.log a = x) (q : Real.log b = y) :
    Real.log (a * b) = x + y := by rw [Real.log_mul ha hb, p, q]
theorem log_div' {a b x y : ℝ} (ha : a ≠ 0) (hb : b ≠ 0) (p : Real.log a = x) (q : Real.log b = y) :
    Real.log (a / b) = x - y := by rw [Real.log_div ha hb, p, q]
theorem log_pow' {a x : ℝ} (n : ℕ) (c : ℝ) (hc : (n : ℝ) = c) (p : Real.log a = x) :
    Real.log (a ^ n) = c * x := by rw [Real.log_pow, p, hc]
theorem log_inv' {a x : ℝ} (p : Real.log a = x) : Real.log a⁻¹ = -x := by rw [Real.log_inv, p]
theorem log_neg' {a x : ℝ} (p : Real.log a = x) : Real.log (-a) = x := by rw [Real.log_neg_eq_log, p]
theorem log_sqrt' {t a x : ℝ} (h : t = Real.sqrt a) (ha : 0 ≤ a) (p : Real.log a = x) : Real.log t = x / 2 := by
  rw [h, Real.log_sqrt ha, p]
theorem log_rpow' {t a e x : ℝ} (h : t = a ^ e) (ha : 0 < a) (p : Real.log a = x) : Real.log t = e * x := by
  rw [h, Real.log_rpow ha, p]
theorem log_zpow' {t a x : ℝ} {n : ℤ} (h : t = a ^ n) (p : Real.log a = x) : Real.log t = (n : ℝ) * x := by
  rw [h, Real.log_zpow, p]
theorem log_exp' {t a : ℝ} (h : t = Real.exp a) : Real.log t = a := by rw [h, Real.log_exp]
theorem log_eq' {a b x : ℝ} (h : a = b) (p : x = Real.log b) : Real.log a = x := by rw [h, p]
theorem sqrt_eq' {e b : ℝ} (hb : 0 ≤ b) (h : b ^ 2 = e) : Real.sqrt e = b := by rw [← h, Real.sqrt_sq hb]
theorem rpow_half {a : ℝ} (ha : 0 < a) (n : ℕ) (e : ℝ) (he : e = n + 1 / 2) {s : ℝ} (hs : s = Real.sqrt a) :
    a ^ e = a ^ n * s := by
  rw [he, Real.rpow_add ha, Real.rpow_natCast, ← Real.sqrt_eq_rpow, hs]
theorem rpow_half_neg {a : ℝ} (ha : 0 < a) (n : ℕ) (e : ℝ) (he : e = -n + 1 / 2) {s : ℝ} (hs : s = Real.sqrt a) :
    a ^ e = (a ^ n)⁻¹ * s := by
  rw [he, Real.rpow_add ha, Real.rpow_neg ha.le, Real.rpow_natCast, ← Real.sqrt_eq_rpow, hs]
theorem tanh_eq' {x s c : ℝ} (hs : s = Real.sinh x) (hc : c = Real.cosh x) : Real.tanh x = s / c := by
  rw [hs, hc, Real.tanh_eq_sinh_div_cosh]
theorem sinh_eq' {x t : ℝ} (h : t = Real.exp x) : Real.sinh x = (t - 1 / t) / 2 := by rw [sinh_exp, h, one_div]
theorem cosh_eq' {x t : ℝ} (h : t = Real.exp x) : Real.cosh x = (t + 1 / t) / 2 := by rw [cosh_exp, h, one_div]

end PV

/-! derivative rules in the shape the generator uses -/
namespace PV
open Real
theorem d_id (x : ℝ) : HasDerivAt (fun y : ℝ => y) 1 x := hasDerivAt_id' x
theorem d_const (c x : ℝ) : HasDerivAt (fun _ : ℝ => c) 0 x := hasDerivAt_const x c
theorem d_add {f g : ℝ → ℝ} {f' g' D x : ℝ} (hf : HasDerivAt f f' x) (hg : HasDerivAt g g' x) (h : f' + g' = D) :
    HasDerivAt (fun y => f y + g y) D x := h ▸ hf.add hg
theorem d_add_c {f : ℝ → ℝ} {c f' x : ℝ} (hf : HasDerivAt f f' x) : HasDerivAt (fun y => f y + c) f' x := hf.add_const c
theorem d_c_add {f : ℝ → ℝ} {c f' x : ℝ} (hf : HasDerivAt f f' x) : HasDerivAt (fun y => c + f y) f' x := hf.const_add c
theorem d_sub {f g : ℝ → ℝ} {f' g' D x : ℝ} (hf : HasDerivAt f f' x) (hg : HasDerivAt g g' x) (h : f' - g' = D) :
    HasDerivAt (fun y => f y - g y) D x := h ▸ hf.sub hg
theorem d_sub_c {f : ℝ → ℝ} {c f' x : ℝ} (hf : HasDerivAt f f' x) : HasDerivAt (fun y => f y - c) f' x := hf.sub_const c
theorem d_c_sub {f : ℝ → ℝ} {c f' D x : ℝ} (hf : HasDerivAt f f' x) (h : -f' = D) : HasDerivAt (fun y => c - f y) D x := h ▸ hf.const_sub c
theorem d_neg {f : ℝ → ℝ} {f' D x : ℝ} (hf : HasDerivAt f f' x) (h : -f' = D) : HasDerivAt (fun y => -f y) D x := h ▸ hf.neg
theorem d_mul {f g : ℝ → ℝ} {f' g' D x : ℝ} (hf : HasDerivAt f f' x) (hg : HasDerivAt g g' x) (h : f' * g x + f x * g' = D) :
    HasDerivAt (fun y => f y * g y) D x := h ▸ hf.mul hg
theorem d_mul_c {f : ℝ → ℝ} {c f' D x : ℝ} (hf : HasDerivAt f f' x) (h : f' * c = D) : HasDerivAt (fun y => f y * c) D x := h ▸ hf.mul_const c
theorem d_c_mul {f : ℝ → ℝ} {c f' D x : ℝ} (hf : HasDerivAt f f' x) (h : c * f' = D) : HasDerivAt (fun y => c * f y) D x := h ▸ hf.const_mul c
theorem d_div {f g : ℝ → ℝ} {f' g' D x : ℝ} (hf : HasDerivAt f f' x) (hg : HasDerivAt g g' x) (h0 : g x ≠ 0)
    (h : (f' * g x - f x * g') / (g x) ^ (2:ℕ) = D) : HasDerivAt (fun y => f y / g y) D x := h ▸ hf.div hg h0
theorem d_div_c {f : ℝ → ℝ} {c f' D x : ℝ} (hf : HasDerivAt f f' x) (h : f' / c = D) : HasDerivAt (fun y => f y / c) D x := h ▸ hf.div_const c
theorem d_c_div {g : ℝ → ℝ} {c g' D x : ℝ} (hg : HasDerivAt g g' x) (h0 : g x ≠ 0) (h : -(c * g' / (g x) ^ (2:ℕ)) = D) :
    HasDerivAt (fun y => c / g y) D x := by
  have h1 := (hasDerivAt_const x c).fun_div hg h0
  have e : (0 * g x - c * g') / g x ^ 2 = D := by rw [← h]; ring
  exact e ▸ h1
theorem d_inv {g : ℝ → ℝ} {g' D x : ℝ} (hg : HasDerivAt g g' x) (h0 : g x ≠ 0) (h : -(g' / (g x) ^ (2:ℕ)) = D) :
    HasDerivAt (fun y => (g y)⁻¹) D x := by
  have h1 := hg.fun_inv h0
  have e : -g' / g x ^ 2 = D := by rw [← h]; ring
  exact e ▸ h1
theorem d_pow {f : ℝ → ℝ} {f' D x : ℝ} (n m : ℕ) (c : ℝ) (hc : (n : ℝ) = c) (hm : n - 1 = m) (hf : HasDerivAt f f' x)
    (h : c * (f x) ^ m * f' = D) : HasDerivAt (fun y => (f y) ^ n) D x := by
  have := hf.pow n
  rw [hc, hm] at this
  exact h ▸ this
theorem d_inv_pow {f : ℝ → ℝ} {f' D x : ℝ} (n m : ℕ) (c : ℝ) (hc : (n : ℝ) = c) (hm : n + 1 = m) (hf : HasDerivAt f f' x) (h0 : f x ≠ 0)
    (h : -(c * f' / (f x) ^ m) = D) : HasDerivAt (fun y => ((f y) ^ n)⁻¹) D x := by
  have h1 := (hf.fun_pow n).fun_inv (pow_ne_zero n h0)
  refine h1.congr_deriv ?_
  rw [← h, ← hc, ← hm]
  rcases n with _ | n
  · simp
  · simp only [Nat.add_sub_cancel]; field_simp; ring
theorem d_zpow {f : ℝ → ℝ} {f' D x : ℝ} (n m : ℤ) (c : ℝ) (hc : (n : ℝ) = c) (hm : n - 1 = m) (hf : HasDerivAt f f' x) (h0 : f x ≠ 0 ∨ 0 ≤ n)
    (h : c * (f x) ^ m * f' = D) : HasDerivAt (fun y => (f y) ^ n) D x := by
  have := (hasDerivAt_zpow n (f x) h0).comp x hf
  rw [hc, hm] at this
  exact h ▸ this
theorem d_rpow {f : ℝ → ℝ} {f' D x p q : ℝ} (hq : p - 1 = q) (hf : HasDerivAt f f' x) (h0 : f x ≠ 0)
    (h : p * (f x) ^ q * f' = D) : HasDerivAt (fun y => (f y) ^ p) D x := by
  have h1 := hf.rpow_const (p := p) (Or.inl h0)
  rw [hq] at h1
  exact h1.congr_deriv (by rw [← h]; ring)
theorem d_exp {f : ℝ → ℝ} {f' D x : ℝ} (hf : HasDerivAt f f' x) (h : exp (f x) * f' = D) : HasDerivAt (fun y => exp (f y)) D x := h ▸ hf.exp
theorem d_log {f : ℝ → ℝ} {f' D x : ℝ} (hf : HasDerivAt f f' x) (h0 : f x ≠ 0) (h : f' / f x = D) : HasDerivAt (fun y => log (f y)) D x := h ▸ hf.log h0
theorem d_sqrt {f : ℝ → ℝ} {f' D x : ℝ} (hf : HasDerivAt f f' x) (h0 : f x ≠ 0) (h : f' / (2 * sqrt (f x)) = D) :
    HasDerivAt (fun y => sqrt (f y)) D x := h ▸ hf.sqrt h0
theorem d_sinh {f : ℝ → ℝ} {f' D x : ℝ} (hf : HasDerivAt f f' x) (h : cosh (f x) * f' = D) : HasDerivAt (fun y => sinh (f y)) D x := h ▸ hf.sinh
theorem d_cosh {f : ℝ → ℝ} {f' D x : ℝ} (hf : HasDerivAt f f' x) (h : sinh (f x) * f' = D) : HasDerivAt (fun y => cosh (f y)) D x := h ▸ hf.cosh
theorem d_sin {f : ℝ → ℝ} {f' D x : ℝ} (hf : HasDerivAt f f' x) (h : cos (f x) * f' = D) : HasDerivAt (fun y => sin (f y)) D x := h ▸ hf.sin
theorem d_cos {f : ℝ → ℝ} {f' D x : ℝ} (hf : HasDerivAt f f' x) (h : -sin (f x) * f' = D) : HasDerivAt (fun y => cos (f y)) D x := h ▸ hf.cos
theorem d_tanh {f : ℝ → ℝ} {f' D x : ℝ} (hf : HasDerivAt f f' x) (h : f' / (cosh (f x)) ^ (2:ℕ) = D) : HasDerivAt (fun y => tanh (f y)) D x := by
  have h1 : HasDerivAt (fun y => sinh (f y) / cosh (f y)) ((cosh (f x) * f' * cosh (f x) - sinh (f x) * (sinh (f x) * f')) / (cosh (f x)) ^ 2) x :=
    hf.sinh.div hf.cosh (cosh_pos _).ne'
  have h2 : (fun y => tanh (f y)) = fun y => sinh (f y) / cosh (f y) := by funext y; rw [tanh_eq_sinh_div_cosh]
  rw [h2]
  convert h1 using 1
  rw [← h]
  have := cosh_sq (f x)
  congr 1
  linear_combination (f') * (-this)
theorem d_comp {g f : ℝ → ℝ} {g' f' D x : ℝ} (hg : HasDerivAt g g' (f x)) (hf : HasDerivAt f f' x) (h : g' * f' = D) :
    HasDerivAt (fun y => g (f y)) D x := h ▸ hg.comp x hf
theorem erf_sqrt {g : ℝ → ℝ} (he : ∀ z : ℝ, HasDerivAt g (2 / Real.sqrt Real.pi * Real.exp (-(z ^ (2:ℕ)))) z) {b : ℝ} (hb : 0 ≤ b) (u : ℝ) :
    HasDerivAt g (2 / Real.sqrt Real.pi * Real.exp (-(u ^ (2:ℕ) / b))) (u / Real.sqrt b) := by
  have h := he (u / Real.sqrt b)
  rwa [div_pow, Real.sq_sqrt hb] at h
theorem d_ite {c : Prop} {f g : ℝ → ℝ} {f' g' x : ℝ} (hf : c → HasDerivAt f f' x) (hg : ¬c → HasDerivAt g g' x) :
    HasDerivAt (fun y => ite c (f y) (g y)) (ite c f' g') x := by
  by_cases h : c
  · simp only [ite_pos h]; exact hf h
  · simp only [ite_neg h]; exact hg h
theorem d_ite_lt {u v f g : ℝ → ℝ} {u' v' f' g' x : ℝ} (hu : HasDerivAt u u' x) (hv : HasDerivAt v v' x) (hne : ¬ (u x = v x))
    (hf : u x < v x → HasDerivAt f f' x) (hg : ¬ (u x < v x) → HasDerivAt g g' x) :
    HasDerivAt (fun y => ite (u y < v y) (f y) (g y)) (ite (u x < v x) f' g') x := by
  rcases lt_or_gt_of_ne hne with h | h
  · rw [ite_pos h]
    refine (hf h).congr_of_eventuallyEq ?_
    filter_upwards [hu.continuousAt.eventually_lt hv.continuousAt h] with y hy
    exact ite_pos hy _ _
  · have h' : ¬ (u x < v x) := not_lt.mpr h.le
    rw [ite_neg h']
    refine (hg h').congr_of_eventuallyEq ?_
    filter_upwards [hv.continuousAt.eventually_lt hu.continuousAt h] with y hy
    exact ite_neg (not_lt.mpr hy.le) _ _
theorem d_ite_le {u v f g : ℝ → ℝ} {u' v' f' g' x : ℝ} (hu : HasDerivAt u u' x) (hv : HasDerivAt v v' x) (hne : ¬ (u x = v x))
    (hf : u x ≤ v x → HasDerivAt f f' x) (hg : ¬ (u x ≤ v x) → HasDerivAt g g' x) :
    HasDerivAt (fun y => ite (u y ≤ v y) (f y) (g y)) (ite (u x ≤ v x) f' g') x := by
  rcases lt_or_gt_of_ne hne with h | h
  · rw [ite_pos h.le]
    refine (hf h.le).congr_of_eventuallyEq ?_
    filter_upwards [hu.continuousAt.eventually_lt hv.continuousAt h] with y hy
    exact ite_pos hy.le _ _
  · have h' : ¬ (u x ≤ v x) := not_le.mpr h
    rw [ite_neg h']
    refine (hg h').congr_of_eventuallyEq ?_
    filter_upwards [hv.continuousAt.eventually_lt hu.continuousAt h] with y hy
    exact ite_neg (not_le.mpr hy) _ _
theorem d_sum_bound {n : ℝ → ℤ} {f : ℝ → ℕ → ℝ} {D x : ℝ} (hn : ∀ᶠ y in nhds x, n y = n x)
    (h : HasDerivAt (fun y => sum (n x) (f y)) D x) : HasDerivAt (fun y => sum (n y) (f y)) D x := by
  refine h.congr_of_eventuallyEq ?_
  filter_upwards [hn] with y hy
  rw [hy]
theorem rpow_sub_pos {c p e : ℝ} (hc : 1 ≤ c) (hp : 0 ≤ p) (he : e < 1) : 0 < c ^ p - e := by
  have := Real.one_le_rpow hc hp; linarith
theorem idx_nonneg (k : ℕ) : (0:ℝ) ≤ ((k : ℤ) : ℝ) := by positivity
theorem exp_sub_pos {a c : ℝ} (ha : 0 ≤ a) (hc : c < 1) : 0 < exp a - c := by
  have := one_le_exp ha; linarith
theorem exp_sub_exp_pos {a c : ℝ} (h : 0 < c) : 0 < exp a - exp (a - c) := sub_pos.mpr (exp_lt_exp.mpr (by linarith))
theorem tanh_pos {x : ℝ} (h : 0 < x) : 0 < tanh x := by
  rw [tanh_eq_sinh_div_cosh]; exact div_pos (sinh_pos_iff.mpr h) (cosh_pos x)
end PV

open Lean Elab Tactic Meta in
/-- `a ≠ 0` where a is a multiple of something a hypothesis says is not zero -/
elab "pv_ne" : tactic => do
  evalTactic (← `(tactic| intro h0_))
  withMainContext do
    for d in ← getLCtx do
      if d.isImplementationDetail then continue
      let t ← instantiateMVars d.type
      if t.isAppOf ``Ne || (t.isAppOf ``Not) then
        let s ← saveState
        try
          let e := mkIdent d.userName
          Term.withoutErrToSorry (evalTactic (← `(tactic| exact absurd (by linarith) $e)))
          if (← getGoals).isEmpty then return
          restoreState s
        catch _ => restoreState s
    throwError "no such hypothesis"

/-- the sums among the factors of a product -/
partial def PV.factors (e : Lean.Expr) (acc : Array Lean.Expr) : Array Lean.Expr :=
  match e.getAppFnArgs with
  | (``HMul.hMul, #[_, _, _, _, a, b]) => PV.factors b (PV.factors a acc)
  | (``HPow.hPow, #[_, _, _, _, a, _]) => PV.factors a acc
  | (``HAdd.hAdd, _) | (``HSub.hSub, _) => if acc.contains e then acc else acc.push e
  | _ => acc

open Lean Elab Tactic Meta in
/-- adds `D ≠ 0` for the denominators of the goal where a hypothesis says so of a multiple of D -/
elab "pv_dens" : tactic => withMainContext do
  let g ← getMainTarget
  let ds : Array Expr := Id.run do
    let mut acc := #[]
    let mut todo := #[g]
    let mut fuel := 100000
    while !todo.isEmpty && fuel > 0 do
      fuel := fuel - 1
      let e := todo.back!
      todo := todo.pop
      match e.getAppFnArgs with
      | (``HDiv.hDiv, #[_, _, _, _, a, b]) => acc := PV.factors b acc; todo := (todo.push a).push b
      | (``Inv.inv, #[_, _, a]) => acc := PV.factors a acc; todo := todo.push a
      | (_, as) => for a in as do todo := todo.push a
    return acc
  for d in ds do
    if d.hasLooseBVars then continue
    let s ← saveState
    try
      let dt ← Lean.PrettyPrinter.delab d
      Term.withoutErrToSorry (evalTactic (← `(tactic| have : $dt ≠ 0 := by pv_ne)))
    catch _ => restoreState s

/-- equality of rational expressions over named values -/
macro "pv_ring" : tactic => `(tactic| first
  | with_reducible rfl
  | ring1
  | (field_simp; first | done | ring1)
  | (push_cast; first | done | ring1)
  | (push_cast; field_simp; first | done | ring1)
  | (field_simp; pv_dens; field_simp; first | done | ring1)
  | (norm_num; done)
  | (norm_num; ring1)
  | (norm_num; field_simp; ring1))

/-- equality of conditions -/
macro "pv_iff" : tactic => `(tactic| first
  | rfl
  | (constructor <;> intro h <;> linarith)
  | (constructor <;> intro h <;> omega)
  | (constructor <;> intro h <;> nlinarith))

/-- the same with equations between the names as hypotheses -/
macro "pv_rel" : tactic => `(tactic| first
  | pv_ring
  | (field_simp; grind)
  | grind)
