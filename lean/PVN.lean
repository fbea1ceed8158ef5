import PVP
set_option linter.all false
/-! Newton's method for the Langevin function: convergence from any start near the root. -/
open Real Filter Topology
namespace PVN

/-- iterate: at most `n` steps of `T`; a further step follows only while `C` held before the last one -/
noncomputable def run (T : ℝ → ℝ) (C : ℝ → Prop) : ℕ → ℝ → ℝ
  | 0, x => x
  | n + 1, x => open Classical in if C x then run T C n (T x) else T x

/-- the loop of the code: `T` computes the next iterate and `g` a value from the previous one; another step follows while `c` holds of that value -/
noncomputable def whl {σ : Type} (c : σ → Prop) (T : ℝ → ℝ) (g : ℝ → σ) : ℕ → ℝ → σ → ℝ
  | 0, x, _ => x
  | n + 1, x, s => open Classical in if c s then whl c T g n (T x) (g x) else x

lemma whl_eq_run {σ : Type} {c : σ → Prop} {T : ℝ → ℝ} {g : ℝ → σ} {n : ℕ} {x : ℝ} {s : σ} (h : c s) :
    whl c T g n x s = run T (fun x => c (g x)) n x := by
  induction n generalizing x s with
  | zero => rfl
  | succ n ih =>
    simp only [whl, run, if_pos h]
    by_cases hc : c (g x)
    · rw [if_pos hc, ih hc]
    · rw [if_neg hc]
      cases n with
      | zero => rfl
      | succ n => simp only [whl, if_neg hc]

lemma run_congr {T T' : ℝ → ℝ} {C C' : ℝ → Prop} (hT : ∀ x, T x = T' x) (hC : ∀ x, C x ↔ C' x) (n : ℕ) (x : ℝ) : run T C n x = run T' C' n x := by
  obtain rfl : T = T' := funext hT
  obtain rfl : C = C' := funext fun x => propext (hC x)
  rfl

lemma whl_congr {σ τ : Type} {c : σ → Prop} {c' : τ → Prop} {T T' : ℝ → ℝ} {g : ℝ → σ} {g' : ℝ → τ} {n n' : ℕ} {x x' : ℝ} {s : σ} {s' : τ}
    (hT : ∀ x, T x = T' x) (hg : ∀ x, c (g x) ↔ c' (g' x)) (hs : c s ↔ c' s') (hn : n = n') (hx : x = x') :
    whl c T g n x s = whl c' T' g' n' x' s' := by
  subst hn hx
  by_cases h : c s
  · rw [whl_eq_run h, whl_eq_run (hs.1 h)]
    exact run_congr hT hg n x
  · have h' := fun k => h (hs.2 k)
    cases n with
    | zero => rfl
    | succ n => simp only [whl, if_neg h, if_neg h']

/-- the step for the equation raised to a power -/
lemma powered (a : ℝ) (p : ℤ) (hp : 0 < p) : -a ^ p / a ^ (p - 1) = -a := by
  rcases eq_or_ne a 0 with rfl | h
  · rw [zero_zpow _ hp.ne']; simp
  · rw [zpow_sub_one₀ h]
    have := zpow_ne_zero p h
    field_simp

noncomputable def L (x : ℝ) : ℝ := 1 / Real.tanh x - 1 / x
noncomputable def L' (x : ℝ) : ℝ := 1 / x ^ 2 - 1 / Real.sinh x ^ 2

lemma sinh_pos {x : ℝ} (h : 0 < x) : 0 < Real.sinh x := Real.sinh_pos_iff.2 h

lemma L_eq {x : ℝ} (h : 0 < x) : L x = (x * Real.cosh x - Real.sinh x) / (x * Real.sinh x) := by
  have := sinh_pos h
  have := Real.cosh_pos x
  unfold L
  rw [Real.tanh_eq_sinh_div_cosh]
  field_simp

lemma hasDeriv {x : ℝ} (h : 0 < x) : HasDerivAt L (L' x) x := by
  have hs := sinh_pos h
  have hc := Real.cosh_pos x
  have h1 : HasDerivAt (fun x => Real.cosh x / Real.sinh x - 1 / x) (L' x) x := by
    have a := (Real.hasDerivAt_cosh x).div (Real.hasDerivAt_sinh x) hs.ne'
    have b := (hasDerivAt_inv h.ne')
    have c := a.sub b
    simp only [← one_div] at c
    refine c.congr_deriv ?_
    have := Real.cosh_sq x
    unfold L'
    field_simp
    nlinarith [this]
  refine h1.congr_of_eventuallyEq ?_
  filter_upwards with y
  unfold L
  rw [Real.tanh_eq_sinh_div_cosh, one_div_div]

/-- functions that vanish at 0 with nonnegative derivative are nonnegative -/
lemma nonneg_of {g g' : ℝ → ℝ} (hg : ∀ x, HasDerivAt g (g' x) x) (h0 : 0 ≤ g 0) (hp : ∀ x, 0 < x → 0 ≤ g' x) {x : ℝ} (hx : 0 ≤ x) : 0 ≤ g x := by
  have m : MonotoneOn g (Set.Ici 0) := by
    refine monotoneOn_of_deriv_nonneg (convex_Ici 0) (fun x _ => (hg x).continuousAt.continuousWithinAt) (fun x _ => (hg x).differentiableAt.differentiableWithinAt) ?_
    intro x hx
    rw [interior_Ici] at hx
    rw [(hg x).deriv]
    exact hp x hx
  exact h0.trans (m Set.self_mem_Ici hx hx)

lemma A_nonneg {x : ℝ} (hx : 0 ≤ x) : 0 ≤ x * Real.cosh x - Real.sinh x := by
  refine nonneg_of (g := fun x => x * Real.cosh x - Real.sinh x) (g' := fun x => x * Real.sinh x) ?_ (by simp) ?_ hx
  · intro x
    refine (((hasDerivAt_id' x).mul (Real.hasDerivAt_cosh x)).sub (Real.hasDerivAt_sinh x)).congr_deriv ?_
    ring
  · intro x hx
    exact (mul_pos hx (sinh_pos hx)).le

lemma self_lt_sinh {x : ℝ} (hx : 0 < x) : x < Real.sinh x := Real.self_lt_sinh_iff.2 hx

lemma L'_pos {x : ℝ} (hx : 0 < x) : 0 < L' x := by
  have := self_lt_sinh hx
  unfold L'
  rw [sub_pos]
  apply one_div_lt_one_div_of_lt (by positivity)
  nlinarith

lemma cube {x : ℝ} (hx : 0 < x) : x ^ 3 * Real.cosh x ≤ Real.sinh x ^ 3 := by
  have key : 4 * (x ^ 3 * Real.cosh x) ≤ (Real.sinh (3 * x) - 3 * x) - 3 * (Real.sinh x - x) := by
    have a := (hasSum_nat_add_iff' 1).2 (Real.hasSum_sinh (3 * x))
    have b := (hasSum_nat_add_iff' 1).2 (Real.hasSum_sinh x)
    have c := (Real.hasSum_cosh x).mul_left (4 * x ^ 3)
    simp only [Finset.range_one, Finset.sum_singleton, mul_zero, zero_add, pow_one, Nat.factorial_one, Nat.cast_one, div_one] at a b
    have d := a.sub (b.mul_left 3)
    rw [← mul_assoc]
    refine hasSum_le ?_ c d
    intro n
    have e : ((2 * (n + 1) + 1).factorial : ℝ) = (2 * n + 3) * (2 * n + 2) * (2 * n + 1) * (2 * n).factorial := by
      have : 2 * (n + 1) + 1 = ((2 * n + 1) + 1) + 1 := by ring
      rw [this, Nat.factorial_succ, Nat.factorial_succ, Nat.factorial_succ]
      push_cast
      ring
    have f : (0 : ℝ) < (2 * n).factorial := by positivity
    have k : ∀ n : ℕ, 4 * ((2 * n + 3) * (2 * n + 2) * (2 * n + 1) : ℝ) ≤ 27 * 9 ^ n - 3 := by
      intro n
      induction n with
      | zero => norm_num
      | succ n ih =>
        push_cast
        rw [pow_succ]
        have : (0:ℝ) ≤ n := by positivity
        nlinarith [mul_nonneg this this, mul_nonneg this (mul_nonneg this this)]
    rw [e]
    have q : (3 * x) ^ (2 * (n + 1) + 1) = 27 * 9 ^ n * x ^ (2 * n + 3) := by
      rw [mul_pow]
      congr 1
      rw [show 2 * (n + 1) + 1 = 2 * n + 3 by ring, pow_add, pow_mul]
      norm_num
      ring
    have q2 : x ^ (2 * (n + 1) + 1) = x ^ (2 * n + 3) := by ring_nf
    rw [q, q2]
    have h1 : 4 * x ^ 3 * (x ^ (2 * n) / ((2 * n).factorial : ℝ)) = 4 * ((2 * n + 3) * (2 * n + 2) * (2 * n + 1)) * (x ^ (2 * n + 3) / ((2 * n + 3) * (2 * n + 2) * (2 * n + 1) * (2 * n).factorial)) := by
      field_simp
      ring
    have h2 : 27 * 9 ^ n * x ^ (2 * n + 3) / ((2 * n + 3) * (2 * n + 2) * (2 * n + 1) * (2 * n).factorial) - 3 * (x ^ (2 * n + 3) / ((2 * n + 3) * (2 * n + 2) * (2 * n + 1) * (2 * n).factorial)) = (27 * 9 ^ n - 3) * (x ^ (2 * n + 3) / ((2 * n + 3) * (2 * n + 2) * (2 * n + 1) * (2 * n).factorial)) := by ring
    rw [h1, h2]
    have hx' : 0 ≤ x ^ (2 * n + 3) := pow_nonneg hx.le _
    have hq : (0:ℝ) ≤ (2 * n + 3) * (2 * n + 2) * (2 * n + 1) * (2 * n).factorial := mul_nonneg (by positivity) f.le
    exact mul_le_mul_of_nonneg_right (k n) (div_nonneg hx' hq)
  have := Real.sinh_three_mul x
  linarith

lemma L'_anti {a b : ℝ} (ha : 0 < a) (hab : a ≤ b) : L' b ≤ L' a := by
  have hd : ∀ x : ℝ, 0 < x → HasDerivAt L' (2 * (x ^ 3 * Real.cosh x - Real.sinh x ^ 3) / (x ^ 3 * Real.sinh x ^ 3)) x := by
    intro x hx
    have hs := sinh_pos hx
    have p := ((hasDerivAt_pow 2 x).inv (by positivity)).sub (((Real.hasDerivAt_sinh x).pow 2).inv (pow_ne_zero 2 hs.ne'))
    simp only [← one_div] at p
    have : L' = ((fun x : ℝ => 1 / x ^ 2) - fun x => 1 / Real.sinh x ^ 2) := by
      funext y; rfl
    rw [this]
    have p2 : HasDerivAt ((fun x : ℝ => 1 / x ^ 2) - fun x => 1 / Real.sinh x ^ 2) _ x := p
    refine p2.congr_deriv ?_
    simp
    field_simp
    ring
  have m : AntitoneOn L' (Set.Ioi 0) := by
    refine antitoneOn_of_deriv_nonpos (convex_Ioi 0) (fun x hx => (hd x hx).continuousAt.continuousWithinAt) (fun x hx => (hd x (interior_subset hx)).differentiableAt.differentiableWithinAt) ?_
    intro x hx
    have hx := interior_subset hx
    rw [(hd x hx).deriv]
    have hx : 0 < x := hx
    have := sinh_pos hx
    exact div_nonpos_of_nonpos_of_nonneg (by linarith [cube hx]) (by positivity)
  exact m ha (lt_of_lt_of_le ha hab : (0:ℝ) < b) hab

/-- `x² L'` increases -/
lemma sq_mono {a b : ℝ} (ha : 0 < a) (hab : a ≤ b) : a ^ 2 * L' a ≤ b ^ 2 * L' b := by
  have hd : ∀ x : ℝ, 0 < x → HasDerivAt (fun x => x / Real.sinh x) ((Real.sinh x - x * Real.cosh x) / Real.sinh x ^ 2) x := by
    intro x hx
    refine ((hasDerivAt_id' x).div (Real.hasDerivAt_sinh x) (sinh_pos hx).ne').congr_deriv ?_
    ring
  have m : AntitoneOn (fun x => x / Real.sinh x) (Set.Ioi 0) := by
    refine antitoneOn_of_deriv_nonpos (convex_Ioi 0) (fun x hx => (hd x hx).continuousAt.continuousWithinAt) (fun x hx => (hd x (interior_subset hx)).differentiableAt.differentiableWithinAt) ?_
    intro x hx
    have hx := interior_subset hx
    rw [(hd x hx).deriv]
    have hx : 0 < x := hx
    have := sinh_pos hx
    exact div_nonpos_of_nonpos_of_nonneg (by linarith [A_nonneg hx.le]) (by positivity)
  have hb : 0 < b := ha.trans_le hab
  have e : ∀ x : ℝ, 0 < x → x ^ 2 * L' x = 1 - (x / Real.sinh x) ^ 2 := by
    intro x hx
    have := sinh_pos hx
    unfold L'
    field_simp
  rw [e a ha, e b hb]
  have h1 := m ha hb hab
  have h2 : 0 < b / Real.sinh b := div_pos hb (sinh_pos hb)
  simp only at h1
  nlinarith

lemma mvt {a b : ℝ} (ha : 0 < a) (hab : a < b) : ∃ c, a < c ∧ c < b ∧ L b - L a = L' c * (b - a) := by
  obtain ⟨c, hc, e⟩ := exists_hasDerivAt_eq_slope L L' hab
    (fun x hx => (hasDeriv (ha.trans_le hx.1)).continuousAt.continuousWithinAt) (fun x hx => hasDeriv (ha.trans hx.1))
  refine ⟨c, hc.1, hc.2, ?_⟩
  rw [e]
  field_simp [(sub_pos.2 hab).ne']

lemma L_mono {a b : ℝ} (ha : 0 < a) (hab : a < b) : L a < L b := by
  obtain ⟨c, h1, h2, e⟩ := mvt ha hab
  have := mul_pos (L'_pos (ha.trans h1)) (sub_pos.2 hab)
  linarith

lemma le_of_L_le {a b : ℝ} (hb : 0 < b) (h : L a ≤ L b) : a ≤ b := by
  by_contra hn
  push Not at hn
  exact absurd (L_mono hb hn) (not_lt.2 h)

noncomputable def T (y x : ℝ) : ℝ := x + (y - L x) / L' x

lemma step_left {x y : ℝ} (hx : 0 < x) (h : L x ≤ y) :
    x ≤ T y x ∧ L (T y x) ≤ y ∧ y - L (T y x) ≤ (1 - (x / T y x) ^ 2) * (y - L x) := by
  have hp := L'_pos hx
  rcases h.eq_or_lt with he | hl
  · have : T y x = x := by unfold T; rw [he]; simp
    rw [this, div_self hx.ne']
    exact ⟨le_rfl, h, by rw [he]; simp⟩
  · set z := T y x with hz
    have hd : z - x = (y - L x) / L' x := by rw [hz]; unfold T; ring
    have hr : y - L x = L' x * (z - x) := by rw [hd]; field_simp
    have hxz : x < z := by
      have : 0 < (y - L x) / L' x := div_pos (by linarith) hp
      linarith
    obtain ⟨c, h1, h2, e⟩ := mvt hx hxz
    have hc : 0 < c := hx.trans h1
    have a1 := L'_anti hx h1.le
    have a2 := sq_mono hx h1.le
    have hzx : 0 < z - x := by linarith
    refine ⟨hxz.le, ?_, ?_⟩
    · nlinarith
    · have hz0 : 0 < z := hx.trans hxz
      have a3 : (x / z) ^ 2 * L' x ≤ L' c := by
        rw [div_pow, div_mul_eq_mul_div, div_le_iff₀ (by positivity)]
        have : c ^ 2 ≤ z ^ 2 := by nlinarith
        nlinarith [L'_pos hc]
      have : (1 - (x / z) ^ 2) * (y - L x) = (y - L x) - ((x / z) ^ 2 * L' x) * (z - x) := by rw [hr]; ring
      rw [this]
      nlinarith

lemma step_right {x y : ℝ} (hx : 0 < x) (h : y < L x) (hy : L (x / 1.23) ≤ y) :
    0.717 * x ≤ T y x ∧ T y x < x ∧ L (T y x) ≤ y ∧ y - L (T y x) ≤ L x - y := by
  have hp := L'_pos hx
  set z := T y x with hz
  have hd : x - z = (L x - y) / L' x := by rw [hz]; unfold T; field_simp; ring
  have hr : L x - y = L' x * (x - z) := by rw [hd]; field_simp
  have hzx : z < x := by
    have : 0 < (L x - y) / L' x := div_pos (by linarith) hp
    linarith
  have ha : 0 < x / 1.23 := by positivity
  have hax : x / 1.23 < x := by rw [div_lt_iff₀ (by norm_num)]; linarith
  obtain ⟨c, h1, h2, e⟩ := mvt ha hax
  have hc : 0 < c := ha.trans h1
  have b1 := sq_mono hc h2.le
  have b2 : L' c ≤ 1.23 ^ 2 * L' x := by
    have h3 : x < 1.23 * c := by rw [div_lt_iff₀ (by norm_num)] at h1; linarith
    have h4 : x ^ 2 ≤ 1.23 ^ 2 * c ^ 2 := by nlinarith
    have : c ^ 2 * L' c ≤ c ^ 2 * (1.23 ^ 2 * L' x) := by nlinarith
    exact le_of_mul_le_mul_left this (by positivity)
  have b3 : L x - y ≤ 0.283 * x * L' x := by
    have : x - x / 1.23 ≤ 0.187 * x := by rw [sub_le_iff_le_add, ← sub_le_iff_le_add', le_div_iff₀ (by norm_num)]; nlinarith
    have h5 : L' c * (x - x / 1.23) ≤ (1.23 ^ 2 * L' x) * (0.187 * x) := mul_le_mul b2 this (by linarith) (by positivity)
    nlinarith [mul_pos hx hp]
  have hz7 : 0.717 * x ≤ z := by
    have : L' x * (x - z) ≤ L' x * (0.283 * x) := by rw [← hr]; linarith
    have := le_of_mul_le_mul_left this hp
    linarith
  have hz0 : 0 < z := by nlinarith
  obtain ⟨d, g1, g2, e2⟩ := mvt hz0 hzx
  have hd0 : 0 < d := hz0.trans g1
  have c1 := L'_anti hd0 g2.le
  have c2 : L' d ≤ 2 * L' x := by
    have h3 := sq_mono hd0 g2.le
    have h5 : x ^ 2 ≤ 2 * d ^ 2 := by
      have : 0.717 * x < d := by linarith
      nlinarith
    have : d ^ 2 * L' d ≤ d ^ 2 * (2 * L' x) := by nlinarith
    exact le_of_mul_le_mul_left this (by positivity)
  refine ⟨hz7, hzx, ?_, ?_⟩
  · have : L' x * (x - z) ≤ L' d * (x - z) := mul_le_mul_of_nonneg_right c1 (by linarith)
    linarith
  · have h6 : 0 < x - z := by linarith
    have h7 : L' d * (x - z) ≤ (2 * L' x) * (x - z) := mul_le_mul_of_nonneg_right c2 h6.le
    nlinarith

lemma run_left {y m B tol : ℝ} {C : ℝ → Prop} (hm : 0 < m) (hB0 : 0 < B) (hB : B ≤ 2.7 * m) (hy : y ≤ L B)
    (hC : ∀ x, 0 < x → ¬ C x → |y - L x| ≤ tol) :
    ∀ (n : ℕ) (x : ℝ), m ≤ x → L x ≤ y → L (run (T y) C n x) ≤ y ∧ 0 < run (T y) C n x ∧
      (y - L (run (T y) C n x) ≤ tol ∨ y - L (run (T y) C n x) ≤ 0.8629 ^ n * (y - L x)) := by
  intro n
  induction n with
  | zero =>
    intro x hx h
    exact ⟨h, hm.trans_le hx, Or.inr (by simp [run])⟩
  | succ n ih =>
    intro x hx h
    have hx0 := hm.trans_le hx
    obtain ⟨s1, s2, s3⟩ := step_left hx0 h
    set z := T y x with hz
    have hz0 : 0 < z := hx0.trans_le s1
    have hzB : z ≤ B := le_of_L_le hB0 (s2.trans hy)
    have hr : y - L z ≤ 0.8629 * (y - L x) := by
      have h1 : 0.3703 ≤ x / z := by
        rw [le_div_iff₀ hz0]
        linarith
      have h2 : 0.1371 ≤ (x / z) ^ 2 := by nlinarith
      have h3 : 0 ≤ y - L x := by linarith
      nlinarith
    simp only [run]
    split_ifs with hc
    · obtain ⟨i1, i2, i3⟩ := ih z (hx.trans s1) s2
      refine ⟨i1, i2, i3.imp id fun h4 => h4.trans ?_⟩
      rw [pow_succ, mul_assoc]
      exact mul_le_mul_of_nonneg_left hr (by positivity)
    · refine ⟨s2, hz0, Or.inl ?_⟩
      have := hC x hx0 hc
      rw [abs_of_nonneg (by linarith)] at this
      have h3 : 0 ≤ y - L x := by linarith
      linarith

lemma L_nonneg {x : ℝ} (h : 0 < x) : 0 ≤ L x := by
  rw [L_eq h]
  have := sinh_pos h
  exact div_nonneg (A_nonneg h.le) (by positivity)

/-- the accuracy of the loop from a start within the range of convergence -/
theorem newton {x y tol : ℝ} {C : ℝ → Prop} (n : ℕ) (hx : 0 < x) (h1 : L (x / 1.23) ≤ y) (h2 : y ≤ L (2.7 * x))
    (hC : ∀ x, 0 < x → ¬ C x → |y - L x| ≤ tol * y) (ht : 0.8629 ^ n ≤ tol) :
    |L (run (T y) C (n + 1) x) - y| ≤ tol * y := by
  have ht0 : 0 < tol := lt_of_lt_of_le (by positivity) ht
  rcases le_or_gt (L x) y with h | h
  · obtain ⟨i1, i2, i3⟩ := run_left hx (by positivity) le_rfl h2 hC (n + 1) x le_rfl h
    rw [abs_of_nonpos (by linarith)]
    rcases i3 with i3 | i3
    · linarith
    · have h3 := L_nonneg hx
      have : (0.8629 : ℝ) ^ (n + 1) * (y - L x) ≤ tol * y := by
        refine mul_le_mul ?_ (by linarith) (by linarith) ht0.le
        rw [pow_succ]
        have : (0:ℝ) < 0.8629 ^ n := by positivity
        nlinarith
      linarith
  · obtain ⟨s1, s2, s3, s4⟩ := step_right hx h h1
    set z := T y x with hz
    have hz0 : 0 < z := by linarith
    simp only [run]
    split_ifs with hc
    · obtain ⟨i1, i2, i3⟩ := run_left (B := x) hz0 hx (by linarith) h.le hC n z le_rfl s3
      rw [abs_of_nonpos (by linarith)]
      rcases i3 with i3 | i3
      · linarith
      · have h3 := L_nonneg hz0
        have : (0.8629 : ℝ) ^ n * (y - L z) ≤ tol * y := mul_le_mul ht (by linarith) (by linarith) ht0.le
        linarith
    · have := hC x hx hc
      rw [abs_of_nonpos (by linarith)] at this
      rw [← hz, abs_of_nonpos (by linarith)]
      linarith

/-! bounds of the Langevin function -/
lemma L_le_third {x : ℝ} (h : 0 < x) : L x ≤ x / 3 := by
  have hs := sinh_pos h
  rw [L_eq h, div_le_iff₀ (by positivity)]
  have : 0 ≤ (x ^ 2 + 3) * Real.sinh x - 3 * x * Real.cosh x := by
    refine nonneg_of (g := fun x => (x ^ 2 + 3) * Real.sinh x - 3 * x * Real.cosh x) (g' := fun x => x * (x * Real.cosh x - Real.sinh x)) ?_ (by simp) ?_ h.le
    · intro x
      refine ((((hasDerivAt_pow 2 x).add_const 3).mul (Real.hasDerivAt_sinh x)).sub (((hasDerivAt_id' x).const_mul 3).mul (Real.hasDerivAt_cosh x))).congr_deriv ?_
      norm_num
      ring
    · intro x hx
      exact mul_nonneg hx.le (A_nonneg hx.le)
  nlinarith

/-- `15 A - x² sinh + ...` : L x ≥ 5 x / (15 + x²) -/
lemma L_ge {x : ℝ} (h : 0 < x) : 5 * x / (15 + x ^ 2) ≤ L x := by
  have hs := sinh_pos h
  rw [L_eq h, div_le_div_iff₀ (by positivity) (by positivity)]
  have e1 : ∀ x : ℝ, 0 < x → 0 ≤ (x ^ 2 + 3) * Real.sinh x - 3 * x * Real.cosh x := by
    intro x hx
    refine nonneg_of (g := fun x => (x ^ 2 + 3) * Real.sinh x - 3 * x * Real.cosh x) (g' := fun x => x * (x * Real.cosh x - Real.sinh x)) ?_ (by simp) ?_ hx.le
    · intro x
      refine ((((hasDerivAt_pow 2 x).add_const 3).mul (Real.hasDerivAt_sinh x)).sub (((hasDerivAt_id' x).const_mul 3).mul (Real.hasDerivAt_cosh x))).congr_deriv ?_
      norm_num
      ring
    · intro x hx
      exact mul_nonneg hx.le (A_nonneg hx.le)
  have : 0 ≤ (15 * x + x ^ 3) * Real.cosh x - (15 + 6 * x ^ 2) * Real.sinh x := by
    refine nonneg_of (g := fun x => (15 * x + x ^ 3) * Real.cosh x - (15 + 6 * x ^ 2) * Real.sinh x) (g' := fun x => x * ((x ^ 2 + 3) * Real.sinh x - 3 * x * Real.cosh x)) ?_ (by simp) ?_ h.le
    · intro x
      refine (((((hasDerivAt_id' x).const_mul 15).add (hasDerivAt_pow 3 x)).mul (Real.hasDerivAt_cosh x)).sub ((((hasDerivAt_pow 2 x).const_mul 6).const_add 15).mul (Real.hasDerivAt_sinh x))).congr_deriv ?_
      norm_num
      ring
    · intro x hx
      exact mul_nonneg hx.le (e1 x hx)
  nlinarith

lemma L_ge' {x : ℝ} (h : 0 < x) : 1 - 1 / x ≤ L x := by
  have hs := sinh_pos h
  have hc := Real.sinh_lt_cosh x
  unfold L
  rw [Real.tanh_eq_sinh_div_cosh, one_div_div]
  have : 1 ≤ Real.cosh x / Real.sinh x := by rw [le_div_iff₀ hs]; linarith
  linarith

/-- upper bound that is sharp at large x -/
lemma L_le {x : ℝ} (h : 0 < x) : L x ≤ 1 - 1 / x + 1 / (x + x ^ 2 + 2 / 3 * x ^ 3) := by
  have hs := sinh_pos h
  have he : Real.cosh x / Real.sinh x = 1 + 2 / (Real.exp (2 * x) - 1) := by
    have h1 : 0 < Real.exp (2 * x) - 1 := by
      have := Real.add_one_lt_exp (show 2 * x ≠ 0 by positivity)
      linarith
    have e1 : Real.exp (2 * x) = Real.exp x * Real.exp x := by rw [← Real.exp_add]; ring_nf
    have e2 : Real.exp x * Real.exp (-x) = 1 := by rw [← Real.exp_add]; simp
    have c := Real.cosh_add_sinh x
    have d := Real.cosh_sub_sinh x
    rw [div_eq_iff hs.ne']
    field_simp
    rw [e1, ← c]
    nlinarith [Real.cosh_sq x]
  have hexp : 2 * (x + x ^ 2 + 2 / 3 * x ^ 3) ≤ Real.exp (2 * x) - 1 := by
    have := Real.sum_le_exp_of_nonneg (show 0 ≤ 2 * x by positivity) 4
    norm_num [Finset.sum_range_succ, Nat.factorial] at this
    nlinarith
  unfold L
  rw [Real.tanh_eq_sinh_div_cosh, one_div_div, he]
  have : 2 / (Real.exp (2 * x) - 1) ≤ 1 / (x + x ^ 2 + 2 / 3 * x ^ 3) := by
    rw [div_le_div_iff₀ (lt_of_lt_of_le (by positivity) hexp) (by positivity)]
    linarith
  linarith

/-! polynomials that are positive on [-1, 1], decided by subdivision -/
open PVE
/-- `p (a + b t)` -/
def comp (a b : ℚ) : List ℚ → List ℚ
  | [] => []
  | c :: p => let q := comp a b p; padd [c] (padd (q.map (a * ·)) (0 :: q.map (b * ·)))

def check : ℕ → List ℚ → Bool
  | _, [] => false
  | 0, c :: p => decide (pabs p < c)
  | n + 1, c :: p => decide (pabs p < c) || (check n (comp (-1/2) (1/2) (c :: p)) && check n (comp (1/2) (1/2) (c :: p)))

lemma ev_smul (a : ℚ) (p : List ℚ) (t : ℝ) : ev (p.map (a * ·)) t = a * ev p t := by
  induction p with
  | nil => simp [ev]
  | cons b p ih => simp only [List.map, ev, ih]; push_cast; ring

lemma ev_comp (a b : ℚ) (p : List ℚ) (t : ℝ) : ev (comp a b p) t = ev p (a + b * t) := by
  induction p with
  | nil => simp [comp, ev]
  | cons c p ih => simp only [comp, ev_padd, ev_smul, ev, ih]; push_cast; ring

lemma check_pos (n : ℕ) (p : List ℚ) (h : check n p = true) {t : ℝ} (ht : |t| ≤ 1) : 0 < ev p t := by
  have base : ∀ (c : ℚ) (p : List ℚ) (t : ℝ), |t| ≤ 1 → pabs p < c → 0 < ev (c :: p) t := by
    intro c p t ht h
    have h1 := ev_abs p ht
    have h2 : ((pabs p : ℚ) : ℝ) < (c : ℝ) := by exact_mod_cast h
    simp only [ev]
    have h3 : |t * ev p t| ≤ pabs p := by
      rw [abs_mul]
      nlinarith [abs_nonneg t, abs_nonneg (ev p t)]
    have := neg_abs_le (t * ev p t)
    linarith
  induction n generalizing p t with
  | zero =>
    cases p with
    | nil => simp [check] at h
    | cons c p => exact base c p t ht (by simpa [check] using h)
  | succ n ih =>
    cases p with
    | nil => simp [check] at h
    | cons c p =>
      simp only [check, Bool.or_eq_true, Bool.and_eq_true, decide_eq_true_eq] at h
      rcases h with h | ⟨hl, hr⟩
      · exact base c p t ht h
      · rw [abs_le] at ht
        rcases le_total t 0 with h0 | h0
        · have := ih _ hl (t := 2 * t + 1) (by rw [abs_le]; constructor <;> linarith)
          rw [ev_comp] at this
          convert this using 2
          push_cast
          ring
        · have := ih _ hr (t := 2 * t - 1) (by rw [abs_le]; constructor <;> linarith)
          rw [ev_comp] at this
          convert this using 2
          push_cast
          ring

/-- a polynomial is positive on [a, b] -/
theorem pos_on (n : ℕ) (a b : ℚ) (p : List ℚ) (hab : a < b) (h : check n (comp ((a + b) / 2) ((b - a) / 2) p) = true) {y : ℝ} (h1 : (a : ℝ) ≤ y) (h2 : y ≤ (b : ℝ)) : 0 < ev p y := by
  have hb : (a : ℝ) < b := by exact_mod_cast hab
  have := check_pos n _ h (t := (2 * y - a - b) / (b - a)) (by
    rw [abs_le, le_div_iff₀ (by linarith), div_le_iff₀ (by linarith)]
    constructor <;> linarith)
  rw [ev_comp] at this
  convert this using 2
  push_cast
  have : (b : ℝ) - a ≠ 0 := by linarith
  field_simp
  ring

/-- Newton's method from the guess `y N(y) / ((1 - y) D(y))` inverts the Langevin function -/
theorem inverse {y tol x : ℝ} {C : ℝ → Prop} (k n : ℕ) (N D : List ℚ)
    (hx : x = y * ev N y / ((1 - y) * ev D y))
    (y0 : 0 < y) (y1 : y < 1)
    (hN : check k (comp (1/2) (1/2) N) = true) (hD : check k (comp (1/2) (1/2) D) = true)
    (a1 : check k (comp (1/4) (1/4) (padd (pmul [3.69, -3.69] D) (pmul [-1] N))) = true)
    (a2 : check k (comp (3/4) (1/4) (padd (padd (pmul [1, -1] (pmul D D)) (pmul [0, 2 / 3 / 1.23] (pmul N D)))
      (pmul [-1] (padd (padd (pmul (pmul [1, -1] D) (pmul [1, -1] D)) (pmul [0, 1 / 1.23] (pmul N (pmul [1, -1] D)))) (pmul [0, 0, 2 / 3 / 1.23 / 1.23] (pmul N N)))))) = true)
    (b1 : check k (comp (1/8) (1/8) (padd (pmul [2.7] N) (pmul [-4, 4] D))) = true)
    (b2 : check k (comp (5/8) (3/8) (padd (pmul [0, 2.7] N) (pmul [-1] D))) = true)
    (hC : ∀ x, 0 < x → ¬ C x → |y - L x| ≤ tol * y) (ht : 0.8629 ^ n ≤ tol) :
    |L (run (T y) C (n + 1) x) - y| ≤ tol * y := by
  have ic : ∀ (a b : ℚ) (p : List ℚ), check k (comp a b p) = true → 0 < b → (a:ℝ) - b ≤ y → y ≤ a + b → 0 < ev p y := by
    intro a b p h hb h1 h2
    refine pos_on k (a - b) (a + b) p (by linarith) ?_ (by push_cast; linarith) (by push_cast; linarith)
    have e1 : (a - b + (a + b)) / 2 = a := by ring
    have e2 : (a + b - (a - b)) / 2 = b := by ring
    rw [e1, e2]
    exact h
  have hN := ic _ _ _ hN (by norm_num) (by push_cast; linarith) (by push_cast; linarith)
  have hD := ic _ _ _ hD (by norm_num) (by push_cast; linarith) (by push_cast; linarith)
  have w0 : 0 < 1 - y := by linarith
  have hx0 : 0 < x := by rw [hx]; positivity
  refine newton n hx0 ?_ ?_ hC ht
  · rcases le_total y (1/2) with h | h
    · have a1 := ic _ _ _ a1 (by norm_num) (by push_cast; linarith) (by push_cast; linarith)
      simp only [ev_padd, ev_pmul, ev] at a1
      push_cast at a1
      refine (L_le_third (by positivity)).trans ?_
      rw [hx, div_div, div_div, div_le_iff₀ (by positivity)]
      have : 0 < y * ((3.69 - 3.69 * y) * ev D y - ev N y) := mul_pos y0 (by linarith)
      nlinarith
    · have a2 := ic _ _ _ a2 (by norm_num) (by push_cast; linarith) (by push_cast; linarith)
      simp only [ev_padd, ev_pmul, ev] at a2
      push_cast at a2
      set z := x / 1.23 with hz
      have hz0 : 0 < z := by positivity
      refine (L_le hz0).trans ?_
      have e : 1 - 1 / z + 1 / (z + z ^ 2 + 2 / 3 * z ^ 3) = 1 - (1 + 2 / 3 * z) / (1 + z + 2 / 3 * z ^ 2) := by
        field_simp
        ring
      rw [e, sub_le_comm, le_div_iff₀ (by positivity)]
      have hzz : z * ((1 - y) * ev D y) = y * ev N y / 1.23 := by
        rw [hz, hx]
        field_simp
      have hd : 0 < (1 - y) * ev D y := by positivity
      have hd2 : 0 < ((1 - y) * ev D y) ^ 2 := by positivity
      refine le_of_mul_le_mul_right ?_ hd2
      have e1 : (1 - y) * (1 + z + 2 / 3 * z ^ 2) * ((1 - y) * ev D y) ^ 2 = (1 - y) * (((1 - y) * ev D y) ^ 2 + (z * ((1 - y) * ev D y)) * ((1 - y) * ev D y) + 2 / 3 * (z * ((1 - y) * ev D y)) ^ 2) := by ring
      have e2 : (1 + 2 / 3 * z) * ((1 - y) * ev D y) ^ 2 = ((1 - y) * ev D y) ^ 2 + 2 / 3 * (z * ((1 - y) * ev D y)) * ((1 - y) * ev D y) := by ring
      rw [e1, e2, hzz]
      have := (mul_pos w0 a2).le
      refine sub_nonneg.1 (this.trans_eq ?_)
      ring
  · have hz0 : 0 < 2.7 * x := by positivity
    rcases le_total y (1/4) with h | h
    · have b1 := ic _ _ _ b1 (by norm_num) (by push_cast; linarith) (by push_cast; linarith)
      simp only [ev_padd, ev_pmul, ev] at b1
      push_cast at b1
      have h4 : 4 * y < 2.7 * x := by
        rw [hx, ← mul_div_assoc, lt_div_iff₀ (by positivity)]
        have := mul_pos y0 b1
        nlinarith
      refine le_trans ?_ (L_mono (by linarith) h4).le
      refine le_trans ?_ (L_ge (by linarith))
      rw [le_div_iff₀ (by positivity)]
      nlinarith [mul_pos y0 y0, mul_pos y0 (mul_pos y0 y0)]
    · have b2 := ic _ _ _ b2 (by norm_num) (by push_cast; linarith) (by push_cast; linarith)
      simp only [ev_padd, ev_pmul, ev] at b2
      push_cast at b2
      refine le_trans ?_ (L_ge' hz0)
      rw [le_sub_comm, div_le_iff₀ hz0]
      rw [hx]
      have : (1 - y) * (2.7 * (y * ev N y / ((1 - y) * ev D y))) = 2.7 * y * ev N y / ev D y := by
        field_simp
      rw [this, le_div_iff₀ hD]
      nlinarith

/-- `3 y` inverts the Langevin function at small `y` -/
theorem small {y : ℝ} (y0 : 0 < y) (h : y ≤ 1 / 1000) : |L (3 * y) - y| ≤ 1 / 10 ^ 6 * y := by
  have h1 := L_le_third (show 0 < 3 * y by positivity)
  have h2 := L_ge (show 0 < 3 * y by positivity)
  rw [abs_of_nonpos (by linarith)]
  have : y - 1 / 10 ^ 6 * y ≤ 5 * (3 * y) / (15 + (3 * y) ^ 2) := by
    rw [le_div_iff₀ (by positivity)]
    have : y ^ 2 ≤ 1 / 10 ^ 6 := by nlinarith
    nlinarith [mul_pos y0 y0, mul_nonneg y0.le (sub_nonneg.2 this)]
  linarith

end PVN
