import PVP
/-! Modified Bessel functions I0, I1 by their power series: derivatives, comparison, reference polynomials. -/
open PVE Real Filter Topology MeasureTheory
namespace PVB

/-! ### power series with factorially decaying coefficients -/

lemma series_deriv (a : ℕ → ℝ) (ha : ∀ n, |a n| ≤ 1 / (n.factorial : ℝ)) (t : ℝ) :
    HasDerivAt (fun t => ∑' n, a n * t ^ n) (∑' n : ℕ, ((n : ℝ) + 1) * a (n + 1) * t ^ n) t := by
  set R : ℝ := |t| + 1 with hR
  have hR0 : 0 ≤ R := by positivity
  have hu : Summable (fun n : ℕ => (n : ℝ) / n.factorial * R ^ (n - 1)) := by
    rw [← summable_nat_add_iff 1]
    refine (Real.summable_pow_div_factorial R).congr fun n => ?_
    have : ((n + 1).factorial : ℝ) = (n + 1) * n.factorial := by rw [Nat.factorial_succ]; push_cast; ring
    rw [this]
    have h1 : (n : ℝ) + 1 ≠ 0 := by positivity
    have h2 : (n.factorial : ℝ) ≠ 0 := by positivity
    push_cast
    field_simp
  have hs : Summable (fun n : ℕ => a n * (0:ℝ) ^ n) := by
    apply summable_of_ne_finset_zero (s := {0})
    intro b hb
    have : b ≠ 0 := by simpa using hb
    simp [this]
  have key := hasDerivAt_tsum_of_isPreconnected (t := Metric.ball (0:ℝ) R) (g := fun (n : ℕ) (y : ℝ) => a n * y ^ n)
    (g' := fun (n : ℕ) (y : ℝ) => a n * ((n : ℝ) * y ^ (n - 1))) (y₀ := 0) (y := t) hu Metric.isOpen_ball
    (convex_ball _ _).isPreconnected
    (fun n y _ => (hasDerivAt_pow n y).const_mul (a n))
    (fun n y hy => by
      have hy' : |y| ≤ R := by
        have : dist y 0 < R := hy
        rw [Real.dist_eq, sub_zero] at this
        exact this.le
      rw [Real.norm_eq_abs, abs_mul, abs_mul, abs_pow, Nat.abs_cast]
      calc |a n| * ((n : ℝ) * |y| ^ (n - 1)) ≤ 1 / (n.factorial : ℝ) * ((n : ℝ) * R ^ (n - 1)) := by
            apply mul_le_mul (ha n) _ (by positivity) (by positivity)
            exact mul_le_mul_of_nonneg_left (pow_le_pow_left₀ (abs_nonneg _) hy' _) (by positivity)
        _ = _ := by ring)
    (by rw [Metric.mem_ball, dist_self]; positivity) hs (by rw [Metric.mem_ball, Real.dist_eq, sub_zero]; linarith)
  refine key.congr_deriv ?_
  have hsum : Summable (fun n : ℕ => a n * ((n : ℝ) * t ^ (n - 1))) := by
    refine Summable.of_norm_bounded hu fun n => ?_
    rw [Real.norm_eq_abs, abs_mul, abs_mul, abs_pow, Nat.abs_cast]
    calc |a n| * ((n : ℝ) * |t| ^ (n - 1)) ≤ 1 / (n.factorial : ℝ) * ((n : ℝ) * R ^ (n - 1)) := by
          apply mul_le_mul (ha n) _ (by positivity) (by positivity)
          exact mul_le_mul_of_nonneg_left (pow_le_pow_left₀ (abs_nonneg _) (by rw [hR]; linarith) _) (by positivity)
      _ = _ := by ring
  rw [hsum.tsum_eq_zero_add]
  simp only [Nat.cast_zero, zero_mul, mul_zero, zero_add]
  congr 1
  funext n
  simp only [Nat.add_sub_cancel]
  push_cast
  ring

noncomputable def c0 (n : ℕ) : ℝ := 1 / ((n.factorial : ℝ) * n.factorial)
noncomputable def c1 (n : ℕ) : ℝ := 1 / ((n.factorial : ℝ) * (n + 1).factorial)
noncomputable def S0 (t : ℝ) : ℝ := ∑' n, c0 n * t ^ n
noncomputable def S1 (t : ℝ) : ℝ := ∑' n, c1 n * t ^ n

lemma fact_ge (n : ℕ) : (1 : ℝ) ≤ n.factorial := by exact_mod_cast Nat.one_le_iff_ne_zero.2 n.factorial_ne_zero

lemma c0_le (n : ℕ) : |c0 n| ≤ 1 / (n.factorial : ℝ) := by
  unfold c0
  rw [abs_of_pos (by positivity)]
  apply one_div_le_one_div_of_le (by positivity)
  have := fact_ge n
  nlinarith

lemma c1_le (n : ℕ) : |c1 n| ≤ 1 / (n.factorial : ℝ) := by
  unfold c1
  rw [abs_of_pos (by positivity)]
  apply one_div_le_one_div_of_le (by positivity)
  have := fact_ge n
  have := fact_ge (n + 1)
  nlinarith

lemma fact_succ (n : ℕ) : ((n + 1).factorial : ℝ) = (n + 1) * n.factorial := by rw [Nat.factorial_succ]; push_cast; ring

lemma S0_deriv (t : ℝ) : HasDerivAt S0 (S1 t) t := by
  refine (series_deriv c0 c0_le t).congr_deriv ?_
  unfold S1
  congr 1
  funext n
  unfold c0 c1
  rw [fact_succ]
  have h1 : (n : ℝ) + 1 ≠ 0 := by positivity
  have h2 : (n.factorial : ℝ) ≠ 0 := by positivity
  field_simp

/-- coefficients of t S1(t) -/
noncomputable def d1 : ℕ → ℝ
  | 0 => 0
  | n + 1 => c1 n

lemma d1_le (n : ℕ) : |d1 n| ≤ 1 / (n.factorial : ℝ) := by
  cases n with
  | zero => simp [d1]
  | succ n =>
    simp only [d1]
    unfold c1
    rw [abs_of_pos (by positivity)]
    apply one_div_le_one_div_of_le (by positivity)
    have := fact_ge n
    have := fact_ge (n + 1)
    nlinarith

lemma S1_summable (t : ℝ) : Summable (fun n => c1 n * t ^ n) := by
  refine Summable.of_norm_bounded (Real.summable_pow_div_factorial |t|) fun n => ?_
  rw [Real.norm_eq_abs, abs_mul, abs_pow, div_eq_mul_one_div, mul_comm]
  exact mul_le_mul_of_nonneg_left (c1_le n) (by positivity)

lemma S0_summable (t : ℝ) : Summable (fun n => c0 n * t ^ n) := by
  refine Summable.of_norm_bounded (Real.summable_pow_div_factorial |t|) fun n => ?_
  rw [Real.norm_eq_abs, abs_mul, abs_pow, div_eq_mul_one_div, mul_comm]
  exact mul_le_mul_of_nonneg_left (c0_le n) (by positivity)

lemma d1_series (t : ℝ) : ∑' n, d1 n * t ^ n = t * S1 t := by
  have hs : Summable (fun n => d1 n * t ^ n) := by
    rw [← summable_nat_add_iff 1]
    refine ((S1_summable t).mul_left t).congr fun n => ?_
    simp only [d1]; ring
  rw [hs.tsum_eq_zero_add]
  simp only [d1, zero_mul, zero_add]
  unfold S1
  rw [← tsum_mul_left]
  congr 1
  funext n
  ring

lemma tS1_deriv (t : ℝ) : HasDerivAt (fun t => t * S1 t) (S0 t) t := by
  have h := series_deriv d1 d1_le t
  have e : (fun t => ∑' n, d1 n * t ^ n) = fun t => t * S1 t := funext d1_series
  rw [e] at h
  refine h.congr_deriv ?_
  unfold S0
  congr 1
  funext n
  simp only [d1]
  unfold c0 c1
  rw [fact_succ]
  have h1 : (n : ℝ) + 1 ≠ 0 := by positivity
  have h2 : (n.factorial : ℝ) ≠ 0 := by positivity
  field_simp

/-- modified Bessel functions of the first kind, by their power series -/
noncomputable def I0 (x : ℝ) : ℝ := S0 (x ^ 2 / 4)
noncomputable def I1 (x : ℝ) : ℝ := x / 2 * S1 (x ^ 2 / 4)

lemma I0_deriv (x : ℝ) : HasDerivAt I0 (I1 x) x := by
  have h : HasDerivAt (fun x : ℝ => x ^ 2 / 4) (x / 2) x := by
    refine ((hasDerivAt_pow 2 x).div_const 4).congr_deriv ?_
    norm_num; ring
  refine ((S0_deriv (x ^ 2 / 4)).comp x h).congr_deriv ?_
  unfold I1; ring

lemma I1_deriv {x : ℝ} (hx : 0 < x) : HasDerivAt I1 (I0 x - I1 x / x) x := by
  have h : HasDerivAt (fun x : ℝ => x ^ 2 / 4) (x / 2) x := by
    refine ((hasDerivAt_pow 2 x).div_const 4).congr_deriv ?_
    norm_num; ring
  have h1 := ((tS1_deriv (x ^ 2 / 4)).comp x h).const_mul 2
  have h2 := h1.fun_div (hasDerivAt_id' x) hx.ne'
  have e : (fun y : ℝ => 2 * ((fun t => t * S1 t) ∘ fun x => x ^ 2 / 4) y / y) =ᶠ[𝓝 x] I1 := by
    filter_upwards [lt_mem_nhds hx] with y hy
    unfold I1
    simp only [Function.comp]
    field_simp
    ring
  refine (h2.congr_of_eventuallyEq e.symm).congr_deriv ?_
  unfold I1 I0
  simp only [Function.comp]
  field_simp
  ring

lemma S0_pos {t : ℝ} (ht : 0 ≤ t) : 1 ≤ S0 t := by
  have := (S0_summable t).sum_le_tsum {0} (fun i _ => by unfold c0; positivity)
  simpa [S0, c0] using this

lemma S1_pos {t : ℝ} (ht : 0 ≤ t) : 1 ≤ S1 t := by
  have := (S1_summable t).sum_le_tsum {0} (fun i _ => by unfold c1; positivity)
  simpa [S1, c1] using this

lemma I0_pos (x : ℝ) : 0 < I0 x := lt_of_lt_of_le one_pos (S0_pos (by positivity))
lemma I1_pos {x : ℝ} (hx : 0 < x) : 0 < I1 x := mul_pos (by positivity) (lt_of_lt_of_le one_pos (S1_pos (by positivity)))
lemma I0_neg (x : ℝ) : I0 (-x) = I0 x := by unfold I0; rw [neg_sq]
lemma I1_neg (x : ℝ) : I1 (-x) = -I1 x := by unfold I1; rw [neg_sq]; ring

/-! ### comparison for the pair (I0, I1) -/

lemma coop {u v u' v' : ℝ → ℝ} {a b : ℝ} (ha0 : 0 < a)
    (hu : ∀ x ∈ Set.Icc a b, HasDerivAt u (u' x) x) (hv : ∀ x ∈ Set.Icc a b, HasDerivAt v (v' x) x)
    (h : ∀ x ∈ Set.Icc a b, 0 ≤ u x → 0 ≤ v x → v x ≤ u' x ∧ u x - v x / x ≤ v' x)
    (h1 : 0 < u a) (h2 : 0 < v a) : ∀ x ∈ Set.Icc a b, 0 < u x ∧ 0 < v x := by
  by_contra hne
  push Not at hne
  obtain ⟨x, hx, hbad⟩ := hne
  have cu : ContinuousOn u (Set.Icc a b) := fun y hy => (hu y hy).continuousAt.continuousWithinAt
  have cv : ContinuousOn v (Set.Icc a b) := fun y hy => (hv y hy).continuousAt.continuousWithinAt
  set S := {y ∈ Set.Icc a b | min (u y) (v y) ≤ 0} with hS
  have hSc : IsClosed S := by
    have : S = Set.Icc a b ∩ (fun y => min (u y) (v y)) ⁻¹' Set.Iic 0 := rfl
    rw [this]
    exact (continuous_min.comp_continuousOn (ContinuousOn.prodMk cu cv)).preimage_isClosed_of_isClosed isClosed_Icc isClosed_Iic
  have hSn : S.Nonempty := ⟨x, hx, by
    by_cases hu0 : 0 < u x
    · exact (min_le_right _ _).trans (hbad hu0)
    · exact (min_le_left _ _).trans (not_lt.1 hu0)⟩
  have hSb : BddBelow S := ⟨a, fun y hy => hy.1.1⟩
  set c := sInf S with hc
  have hcS : c ∈ S := hSc.csInf_mem hSn hSb
  have hac : a ≤ c := hcS.1.1
  have hcb : c ≤ b := hcS.1.2
  have hsub : Set.Icc a c ⊆ Set.Icc a b := Set.Icc_subset_Icc le_rfl hcb
  have pos : ∀ y ∈ Set.Icc a c, y < c → 0 < u y ∧ 0 < v y := by
    intro y hy hyc
    by_contra hn
    have : y ∈ S := ⟨hsub hy, by
      rw [not_and_or] at hn
      rcases hn with hn | hn
      · exact (min_le_left _ _).trans (not_lt.1 hn)
      · exact (min_le_right _ _).trans (not_lt.1 hn)⟩
    exact absurd (csInf_le hSb this) (not_le.2 hyc)
  have mu : MonotoneOn u (Set.Icc a c) := by
    apply monotoneOn_of_hasDerivWithinAt_nonneg (convex_Icc _ _) (cu.mono hsub) (f' := u')
    · intro y hy; exact (hu y (hsub (interior_subset hy))).hasDerivWithinAt
    · intro y hy
      have hy' := interior_subset hy
      rw [interior_Icc] at hy
      obtain ⟨p, q⟩ := pos y hy' hy.2
      exact q.le.trans (h y (hsub hy') p.le q.le).1
  have mv : MonotoneOn (fun y => y * v y) (Set.Icc a c) := by
    apply monotoneOn_of_hasDerivWithinAt_nonneg (convex_Icc _ _) (continuousOn_id.mul (cv.mono hsub)) (f' := fun y => 1 * v y + y * v' y)
    · intro y hy; exact ((hasDerivAt_id' y).mul (hv y (hsub (interior_subset hy)))).hasDerivWithinAt
    · intro y hy
      have hy' := interior_subset hy
      rw [interior_Icc] at hy
      obtain ⟨p, q⟩ := pos y hy' hy.2
      have hyp : 0 < y := lt_of_lt_of_le ha0 hy'.1
      have := (h y (hsub hy') p.le q.le).2
      have h3 := mul_le_mul_of_nonneg_left this hyp.le
      have : y * (u y - v y / y) = y * u y - v y := by field_simp
      have : 0 ≤ y * u y := by positivity
      linarith
  have e1 := mu ⟨le_rfl, hac⟩ ⟨hac, le_rfl⟩ hac
  have e2 := mv ⟨le_rfl, hac⟩ ⟨hac, le_rfl⟩ hac
  simp only at e2
  have p2 : 0 < c * v c := lt_of_lt_of_le (mul_pos ha0 h2) e2
  have p3 : 0 < v c := by
    by_contra hn
    have hc0 : 0 < c := lt_of_lt_of_le ha0 hac
    have := mul_nonpos_of_nonneg_of_nonpos hc0.le (not_lt.1 hn)
    linarith
  have := hcS.2
  rcases min_le_iff.1 this with h5 | h5 <;> linarith

lemma step {y0 y1 y0' y1' : ℝ → ℝ} {a b K δ : ℝ} (ha0 : 0 < a) (hK : 0 ≤ K) (hδ : 0 ≤ δ)
    (d0 : ∀ x ∈ Set.Icc a b, HasDerivAt y0 (y0' x) x) (d1 : ∀ x ∈ Set.Icc a b, HasDerivAt y1 (y1' x) x)
    (r0 : ∀ x ∈ Set.Icc a b, |y0' x - y1 x| ≤ δ * y0 x) (r1 : ∀ x ∈ Set.Icc a b, |y1' x - (y0 x - y1 x / x)| ≤ δ * y1 x)
    (i0 : |y0 a - I0 a| < K * I0 a) (i1 : |y1 a - I1 a| < K * I1 a) (hb : K + 2 * δ * (b - a) ≤ 1) :
    ∀ x ∈ Set.Icc a b, |y0 x - I0 x| < (K + 2 * δ * (b - a)) * I0 x ∧ |y1 x - I1 x| < (K + 2 * δ * (b - a)) * I1 x := by
  have dk : ∀ x : ℝ, HasDerivAt (fun x : ℝ => K + 2 * δ * (x - a)) (2 * δ) x := by
    intro x
    have := (((hasDerivAt_id' x).sub_const a).const_mul (2 * δ)).const_add K
    simpa using this
  have kb : ∀ x ∈ Set.Icc a b, 0 ≤ K + 2 * δ * (x - a) ∧ K + 2 * δ * (x - a) ≤ K + 2 * δ * (b - a) := by
    intro x hx
    have h1 : 0 ≤ x - a := by linarith [hx.1]
    have h2 : x - a ≤ b - a := by linarith [hx.2]
    constructor
    · positivity
    · have := mul_le_mul_of_nonneg_left h2 (show 0 ≤ 2 * δ by positivity)
      linarith
  have up := coop (u := fun x => (K + 2 * δ * (x - a)) * I0 x - (y0 x - I0 x)) (v := fun x => (K + 2 * δ * (x - a)) * I1 x - (y1 x - I1 x))
    (u' := fun x => 2 * δ * I0 x + (K + 2 * δ * (x - a)) * I1 x - (y0' x - I1 x))
    (v' := fun x => 2 * δ * I1 x + (K + 2 * δ * (x - a)) * (I0 x - I1 x / x) - (y1' x - (I0 x - I1 x / x))) (a := a) (b := b) ha0
    (fun x hx => ((dk x).mul (I0_deriv x)).sub ((d0 x hx).sub (I0_deriv x)))
    (fun x hx => ((dk x).mul (I1_deriv (lt_of_lt_of_le ha0 hx.1))).sub ((d1 x hx).sub (I1_deriv (lt_of_lt_of_le ha0 hx.1))))
    (by
      intro x hx hu hv
      obtain ⟨k1, k2⟩ := kb x hx
      have p0 := I0_pos x
      have p1 := I1_pos (lt_of_lt_of_le ha0 hx.1)
      have q0 := abs_le.1 (r0 x hx)
      have q1 := abs_le.1 (r1 x hx)
      have g0 : y0 x ≤ 2 * I0 x := by nlinarith
      have g1 : y1 x ≤ 2 * I1 x := by nlinarith
      have f0 := mul_le_mul_of_nonneg_left g0 hδ
      have f1 := mul_le_mul_of_nonneg_left g1 hδ
      constructor
      · linarith
      · have : ((K + 2 * δ * (x - a)) * I1 x - (y1 x - I1 x)) / x = (K + 2 * δ * (x - a)) * (I1 x / x) - (y1 x / x - I1 x / x) := by ring
        rw [this]
        nlinarith)
    (by have := abs_lt.1 i0; simp only [sub_self, mul_zero, add_zero]; linarith)
    (by have := abs_lt.1 i1; simp only [sub_self, mul_zero, add_zero]; linarith)
  have dn := coop (u := fun x => (K + 2 * δ * (x - a)) * I0 x + (y0 x - I0 x)) (v := fun x => (K + 2 * δ * (x - a)) * I1 x + (y1 x - I1 x))
    (u' := fun x => 2 * δ * I0 x + (K + 2 * δ * (x - a)) * I1 x + (y0' x - I1 x))
    (v' := fun x => 2 * δ * I1 x + (K + 2 * δ * (x - a)) * (I0 x - I1 x / x) + (y1' x - (I0 x - I1 x / x))) (a := a) (b := b) ha0
    (fun x hx => ((dk x).mul (I0_deriv x)).add ((d0 x hx).sub (I0_deriv x)))
    (fun x hx => ((dk x).mul (I1_deriv (lt_of_lt_of_le ha0 hx.1))).add ((d1 x hx).sub (I1_deriv (lt_of_lt_of_le ha0 hx.1))))
    (by
      intro x hx hu hv
      obtain ⟨k1, k2⟩ := kb x hx
      obtain ⟨v0, v1⟩ := up x hx
      have p0 := I0_pos x
      have p1 := I1_pos (lt_of_lt_of_le ha0 hx.1)
      have q0 := abs_le.1 (r0 x hx)
      have q1 := abs_le.1 (r1 x hx)
      have g0 : y0 x ≤ 2 * I0 x := by nlinarith
      have g1 : y1 x ≤ 2 * I1 x := by nlinarith
      have f0 := mul_le_mul_of_nonneg_left g0 hδ
      have f1 := mul_le_mul_of_nonneg_left g1 hδ
      constructor
      · linarith
      · have : ((K + 2 * δ * (x - a)) * I1 x + (y1 x - I1 x)) / x = (K + 2 * δ * (x - a)) * (I1 x / x) + (y1 x / x - I1 x / x) := by ring
        rw [this]
        nlinarith)
    (by have := abs_lt.1 i0; simp only [sub_self, mul_zero, add_zero]; linarith)
    (by have := abs_lt.1 i1; simp only [sub_self, mul_zero, add_zero]; linarith)
  intro x hx
  obtain ⟨k1, k2⟩ := kb x hx
  obtain ⟨u0, u1⟩ := up x hx
  obtain ⟨l0, l1⟩ := dn x hx
  have p0 := I0_pos x
  have p1 := I1_pos (lt_of_lt_of_le ha0 hx.1)
  have m0 := mul_le_mul_of_nonneg_right k2 p0.le
  have m1 := mul_le_mul_of_nonneg_right k2 p1.le
  rw [abs_lt, abs_lt]
  refine ⟨⟨?_, ?_⟩, ?_, ?_⟩ <;> linarith

/-! ### polynomial bounds on an interval -/

/-- p(c + h s) as a polynomial of s -/
def comp (c h : ℚ) : List ℚ → List ℚ
  | [] => []
  | a :: p => padd [a] (pmul [c, h] (comp c h p))

lemma ev_comp (c h : ℚ) (p : List ℚ) (s : ℝ) : ev (comp c h p) s = ev p (c + h * s) := by
  induction p with
  | nil => simp [comp, ev]
  | cons a p ih =>
    simp only [comp, ev_padd, ev_pmul, ih, ev]
    push_cast; ring

def okSub (r base : List ℚ) (δ c h : ℚ) : Bool :=
  decide (pabs (comp c h r) ≤ δ * ((comp c h base).headD 0 - pabs (comp c h base).tail))

lemma low_ev (p : List ℚ) {t : ℝ} (ht : |t| ≤ 1) : ((p.headD 0 : ℚ) : ℝ) - (pabs p.tail : ℚ) ≤ ev p t := by
  cases p with
  | nil => simp [ev, pabs]
  | cons a r =>
    simp only [List.headD_cons, List.tail_cons, ev]
    have h1 := ev_abs r ht
    have h5 : |t * ev r t| ≤ 1 * |ev r t| := by rw [abs_mul]; exact mul_le_mul_of_nonneg_right ht (abs_nonneg _)
    rw [one_mul] at h5
    have := (abs_le.1 (h5.trans h1)).1
    linarith

lemma okSub_sound {r base : List ℚ} {δ c h : ℚ} (hδ : 0 ≤ δ) (hh : 0 < h) (ok : okSub r base δ c h = true) {u : ℝ} (h1 : (c - h : ℝ) ≤ u) (h2 : u ≤ c + h) :
    |ev r u| ≤ δ * ev base u := by
  have hh' : (0:ℝ) < h := by exact_mod_cast hh
  have e : (c : ℝ) + h * ((u - c) / h) = u := by field_simp; ring
  have t1 : |(u - c) / (h:ℝ)| ≤ 1 := by
    rw [abs_div, abs_of_pos hh', div_le_one hh', abs_le]
    constructor <;> linarith
  have a1 := ev_abs (comp c h r) t1
  have a2 := low_ev (comp c h base) t1
  rw [ev_comp, e] at a1 a2
  have o : pabs (comp c h r) ≤ δ * ((comp c h base).headD 0 - pabs (comp c h base).tail) := by simpa [okSub] using ok
  have o' : ((pabs (comp c h r) : ℚ) : ℝ) ≤ δ * (((comp c h base).headD 0 : ℚ) - (pabs (comp c h base).tail : ℚ)) := by exact_mod_cast o
  have hδ' : (0:ℝ) ≤ δ := by exact_mod_cast hδ
  exact a1.trans (o'.trans (mul_le_mul_of_nonneg_left a2 hδ'))

/-- cells [a, a + 2h], [a + 2h, a + 4h], ... -/
def okAll (r base : List ℚ) (δ h : ℚ) : ℕ → ℚ → Bool
  | 0, _ => true
  | n + 1, a => okSub r base δ (a + h) h && okAll r base δ h n (a + 2 * h)

lemma okAll_sound {r base : List ℚ} {δ h : ℚ} (hδ : 0 ≤ δ) (hh : 0 < h) : ∀ (n : ℕ) (a : ℚ), okAll r base δ h (n + 1) a = true →
    ∀ u : ℝ, (a : ℝ) ≤ u → u ≤ a + 2 * h * (n + 1) → |ev r u| ≤ δ * ev base u := by
  have hh' : (0:ℝ) < h := by exact_mod_cast hh
  intro n
  induction n with
  | zero =>
    intro a ok u h1 h2
    simp only [okAll, Bool.and_true] at ok
    apply okSub_sound hδ hh ok
    · push_cast; linarith
    · push_cast; push_cast at h2; linarith
  | succ n ih =>
    intro a ok u h1 h2
    rw [okAll, Bool.and_eq_true] at ok
    by_cases hu : u ≤ a + 2 * h
    · apply okSub_sound hδ hh ok.1
      · push_cast; linarith
      · push_cast; linarith
    · apply ih (a + 2 * h) ok.2 u
      · push_cast; linarith
      · push_cast; push_cast at h2; linarith

/-! ### small arguments: polynomial against the series -/

def tay (f : ℕ → ℚ) : ℕ → ℕ → List ℚ
  | 0, _ => []
  | n + 1, k => f k :: tay f n (k + 1)

lemma ev_tay (f : ℕ → ℚ) (t : ℝ) : ∀ n k, ev (tay f n k) t = ∑ i ∈ Finset.range n, (f (k + i) : ℝ) * t ^ i := by
  intro n
  induction n with
  | zero => intro k; simp [tay, ev]
  | succ n ih =>
    intro k
    rw [Finset.sum_range_succ']
    simp only [tay, ev, ih]
    rw [Finset.mul_sum]
    simp only [pow_zero, mul_one, add_zero]
    rw [add_comm]
    congr 1
    apply Finset.sum_congr rfl
    intro i _
    rw [show k + 1 + i = k + (i + 1) by omega]
    ring

def f0 (n : ℕ) : ℚ := 1 / ((n.factorial : ℚ) * n.factorial)
def f1 (n : ℕ) : ℚ := 1 / ((n.factorial : ℚ) * (n + 1).factorial)

lemma exp_series (t : ℝ) : ∑' n : ℕ, t ^ n / n.factorial = exp t := by
  rw [Real.exp_eq_exp_ℝ, NormedSpace.exp_eq_tsum_div]

lemma tail_le (c : ℕ → ℝ) (hc : ∀ n, c n ≤ 1 / ((n.factorial : ℝ) * n.factorial)) {t : ℝ} (ht : 0 ≤ t)
    (hs : Summable (fun n => c n * t ^ n)) (n : ℕ) :
    ∑' k, c k * t ^ k ≤ (∑ k ∈ Finset.range n, c k * t ^ k) + t ^ n / ((n.factorial : ℝ) * n.factorial) * exp t := by
  rw [← hs.sum_add_tsum_nat_add n]
  gcongr
  rw [← exp_series, ← tsum_mul_left]
  apply Summable.tsum_le_tsum
  · intro i
    have h1 : (n.factorial : ℝ) * i.factorial ≤ (i + n).factorial := by
      have := Nat.le_of_dvd (Nat.factorial_pos _) (Nat.factorial_mul_factorial_dvd_factorial_add i n)
      rw [mul_comm] at this
      exact_mod_cast this
    have h2 : (n.factorial : ℝ) ≤ (i + n).factorial := by exact_mod_cast Nat.factorial_le (by omega)
    calc c (i + n) * t ^ (i + n) ≤ 1 / (((i + n).factorial : ℝ) * (i + n).factorial) * t ^ (i + n) :=
          mul_le_mul_of_nonneg_right (hc _) (by positivity)
      _ ≤ 1 / ((n.factorial : ℝ) * ((n.factorial : ℝ) * i.factorial)) * t ^ (i + n) := by
          apply mul_le_mul_of_nonneg_right _ (by positivity)
          apply one_div_le_one_div_of_le (by positivity)
          exact mul_le_mul h2 h1 (by positivity) (by positivity)
      _ = _ := by rw [pow_add]; field_simp
  · exact (summable_nat_add_iff n).2 hs
  · exact (Real.summable_pow_div_factorial t).mul_left _

lemma tail_num {t : ℝ} (ht : 0 ≤ t) (h : t ≤ 961 / 64) : t ^ 36 / (((36:ℕ).factorial : ℝ) * (36:ℕ).factorial) * exp t ≤ 1 / 10 ^ 20 := by
  have h1 : exp t ≤ 3 ^ 16 := by
    have : exp t ≤ exp ((16:ℕ):ℝ) := exp_le_exp.2 (by push_cast; linarith)
    refine this.trans ?_
    have h3 : exp 1 ^ 16 ≤ 3 ^ 16 := pow_le_pow_left₀ (exp_pos _).le (by have := Real.exp_one_lt_d9; linarith) 16
    rw [← Real.exp_nat_mul, mul_one] at h3
    exact h3
  have h2 : t ^ 36 ≤ 16 ^ 36 := pow_le_pow_left₀ ht (by linarith) 36
  have h4 : (((36:ℕ).factorial : ℝ) * (36:ℕ).factorial) = 138376101310464180316384000969390690508627607008560432506011648000000000000000000 ∨ True := Or.inr trivial
  calc _ ≤ 16 ^ 36 / (((36:ℕ).factorial : ℝ) * (36:ℕ).factorial) * 3 ^ 16 := by
        apply mul_le_mul _ h1 (exp_pos _).le (by positivity)
        exact div_le_div_of_nonneg_right h2 (by positivity)
    _ ≤ _ := by norm_num [Nat.factorial]

def P0 : List ℚ := [10000000000000000000000000000000000000000, 10000000000000000000000000000000000000000, 2499999999999999000000000000000000000000, 277777777777782200000000000000000000000, 17361111111102370000000000000000000000, 694444444453352500000000000000000000, 19290123451321990000000000000000000, 393675991102510700000000000000000, 6151186727044392000000000000000, 75940700205897340000000000000, 759389793369836300000000000, 6277677736362926000000000, 43470970415327220000000, 263417742690109100000, 1139430377448228000, 9079269200856248].map fun n : ℤ => mkRat n (10 ^ 40)
def P1 : List ℚ := [10000000000000000000000000000000000000000, 5000000000000000000000000000000000000000, 833333333333333300000000000000000000000, 69444444444443410000000000000000000000, 3472222222225921000000000000000000000, 115740740735498700000000000000000000, 2755731926254790000000000000000000, 49209496928006710000000000000000, 683465731130562100000000000000, 7593969849687574000000000000, 69048226527419170000000000, 522015709535137300000000, 3410720494727771000000, 16252128909471710000, 133289892816229000].map fun n : ℤ => mkRat n (10 ^ 40)
def pa : List ℚ := [39894228040142500000, 4986778506049619000, 2805062339283126000, 2922112251660478000, 4442072994936595000, 13097057460585670000, -335052280231727000000, 23302571158351470000000, -1133663506971723000000000, 42405767431786730000000000, -1231570285956987000000000000, 28023193815526750000000000000, -501883999713777900000000000000, 7080292430151091000000000000000, -78426108212481110000000000000000, 676825737854096500000000000000000, -4490348496961380000000000000000000, 22415523996695890000000000000000000, -81342646786565930000000000000000000, 202391097391687700000000000000000000, -308675715295370800000000000000000000, 217587543863819000000000000000000000].map fun n : ℤ => mkRat n (10 ^ 20)
def qa : List ℚ := [39894228040144060000, -14960335516131110000, -4675104253598537000, -4090895951581637000, -5719036414430205000, -15281895543744920000, 345828447097717200000, -24261813715950210000000, 1178785865993440000000000, -44046555824434870000000000, 1277677779341446000000000000, -29033903982366560000000000000, 519238689822220600000000000000, -7313784438967834000000000000000, 80878244849948590000000000000000, -696760251600578700000000000000000, 4614040809616582000000000000000000, -22988496394571720000000000000000000, 83255540733346180000000000000000000, -206728504577890600000000000000000000, 314640165436132500000000000000000000, -221331820217922100000000000000000000].map fun n : ℤ => mkRat n (10 ^ 20)
def pb : List ℚ := [39894228040143290000, 4986778504914345000, 2805063089165061000, 2921790968539151000, 4533712087625794000].map fun n : ℤ => mkRat n (10 ^ 20)
def qb : List ℚ := [39894228040143140000, -14960335514675840000, -4675105322571775000, -4090421597376992000, -5843630344778927000].map fun n : ℤ => mkRat n (10 ^ 20)

def T0 : List ℚ := tay f0 36 0
def T1 : List ℚ := tay f1 36 0

lemma T0_le {t : ℝ} (ht : 0 ≤ t) (h : t ≤ 961 / 64) : ev T0 t ≤ S0 t ∧ S0 t ≤ ev T0 t + 1 / 10 ^ 20 := by
  have e : ev T0 t = ∑ i ∈ Finset.range 36, c0 i * t ^ i := by
    unfold T0
    rw [ev_tay]
    apply Finset.sum_congr rfl
    intro i _
    unfold f0 c0
    push_cast
    rw [zero_add]
  constructor
  · rw [e]; exact (S0_summable t).sum_le_tsum _ (fun i _ => by unfold c0; positivity)
  · have := tail_le c0 (fun n => le_rfl) ht (S0_summable t) 36
    rw [← e] at this
    have := tail_num ht h
    unfold S0
    linarith

lemma T1_le {t : ℝ} (ht : 0 ≤ t) (h : t ≤ 961 / 64) : ev T1 t ≤ S1 t ∧ S1 t ≤ ev T1 t + 1 / 10 ^ 20 := by
  have e : ev T1 t = ∑ i ∈ Finset.range 36, c1 i * t ^ i := by
    unfold T1
    rw [ev_tay]
    apply Finset.sum_congr rfl
    intro i _
    unfold f1 c1
    push_cast
    rw [zero_add]
  constructor
  · rw [e]; exact (S1_summable t).sum_le_tsum _ (fun i _ => by unfold c1; positivity)
  · have := tail_le c1 (fun n => by
      unfold c1
      apply one_div_le_one_div_of_le (by positivity)
      apply mul_le_mul_of_nonneg_left _ (by positivity)
      exact_mod_cast Nat.factorial_le (by omega)) ht (S1_summable t) 36
    rw [← e] at this
    have := tail_num ht h
    unfold S1
    linarith

/-! ### large arguments -/

noncomputable def Y (p : List ℚ) (x : ℝ) : ℝ := exp x / √x * ev p x⁻¹

def rder (p : List ℚ) : List ℚ := padd p (padd (psc (-1 / 2) (0 :: p)) (psc (-1) (0 :: 0 :: pder p)))

lemma Y_deriv (p : List ℚ) {x : ℝ} (hx : 0 < x) : HasDerivAt (Y p) (exp x / √x * ev (rder p) x⁻¹) x := by
  have h1 := (Real.hasDerivAt_exp x).fun_div (Real.hasDerivAt_sqrt hx.ne') (Real.sqrt_ne_zero'.2 hx)
  have h2 := (ev_pder p x⁻¹).comp x (hasDerivAt_inv hx.ne')
  refine (h1.mul h2).congr_deriv ?_
  simp only [rder, ev_padd, ev_psc, ev, Function.comp]
  have hs : √x ^ 2 = x := Real.sq_sqrt hx.le
  have hs0 : √x ≠ 0 := Real.sqrt_ne_zero'.2 hx
  push_cast
  generalize √x = s at hs hs0
  subst hs
  field_simp
  ring

def R0 (p q : List ℚ) : List ℚ := padd (rder p) (psc (-1) q)
def R1 (p q : List ℚ) : List ℚ := padd (rder q) (padd (psc (-1) p) (0 :: q))

lemma Y_step {p q : List ℚ} {a b K δ : ℝ} (ha0 : 0 < a) (hK : 0 ≤ K) (hδ : 0 ≤ δ)
    (r0 : ∀ u : ℝ, b⁻¹ ≤ u → u ≤ a⁻¹ → |ev (R0 p q) u| ≤ δ * ev p u) (r1 : ∀ u : ℝ, b⁻¹ ≤ u → u ≤ a⁻¹ → |ev (R1 p q) u| ≤ δ * ev q u)
    (i0 : |Y p a - I0 a| < K * I0 a) (i1 : |Y q a - I1 a| < K * I1 a) (hb : K + 2 * δ * (b - a) ≤ 1) :
    ∀ x ∈ Set.Icc a b, |Y p x - I0 x| < (K + 2 * δ * (b - a)) * I0 x ∧ |Y q x - I1 x| < (K + 2 * δ * (b - a)) * I1 x := by
  apply step (y0' := fun x => exp x / √x * ev (rder p) x⁻¹) (y1' := fun x => exp x / √x * ev (rder q) x⁻¹) ha0 hK hδ
    (fun x hx => Y_deriv p (lt_of_lt_of_le ha0 hx.1)) (fun x hx => Y_deriv q (lt_of_lt_of_le ha0 hx.1)) _ _ i0 i1 hb
  · intro x hx
    have h0 : 0 < x := lt_of_lt_of_le ha0 hx.1
    have hw : 0 < exp x / √x := by positivity
    have := r0 x⁻¹ (inv_anti₀ h0 hx.2) (inv_anti₀ ha0 hx.1)
    have e : exp x / √x * ev (rder p) x⁻¹ - Y q x = exp x / √x * ev (R0 p q) x⁻¹ := by
      simp only [R0, ev_padd, ev_psc, Y]; push_cast; ring
    rw [e, abs_mul, abs_of_pos hw]
    unfold Y
    nlinarith
  · intro x hx
    have h0 : 0 < x := lt_of_lt_of_le ha0 hx.1
    have hw : 0 < exp x / √x := by positivity
    have := r1 x⁻¹ (inv_anti₀ h0 hx.2) (inv_anti₀ ha0 hx.1)
    have e : exp x / √x * ev (rder q) x⁻¹ - (Y p x - Y q x / x) = exp x / √x * ev (R1 p q) x⁻¹ := by
      simp only [R1, ev_padd, ev_psc, Y, ev]; push_cast; ring
    rw [e, abs_mul, abs_of_pos hw]
    unfold Y
    nlinarith

end PVB
