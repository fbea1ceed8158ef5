import PVB1
import PVB2
import PVB3
import PVB4
/-! Accuracy of the reference approximations of I0, I1 and of approximations near them. -/
open PVE Real Filter Topology MeasureTheory
namespace PVB

lemma P0_acc {t : ℝ} (ht : 0 ≤ t) (h : t ≤ 961 / 64) : |ev P0 t - S0 t| ≤ 2 / 10 ^ 14 * S0 t := by
  have h1 := okAll_sound (by norm_num) (by norm_num) 7 0 ok_P0 t (by push_cast; exact ht) (by push_cast; linarith)
  rw [ev_padd, ev_psc] at h1
  push_cast at h1
  obtain ⟨a, b⟩ := T0_le ht h
  have c := S0_pos ht
  have d := abs_le.1 h1
  rw [abs_le]
  constructor <;> linarith

lemma P1_acc {t : ℝ} (ht : 0 ≤ t) (h : t ≤ 961 / 64) : |ev P1 t - S1 t| ≤ 2 / 10 ^ 14 * S1 t := by
  have h1 := okAll_sound (by norm_num) (by norm_num) 7 0 ok_P1 t (by push_cast; exact ht) (by push_cast; linarith)
  rw [ev_padd, ev_psc] at h1
  push_cast at h1
  obtain ⟨a, b⟩ := T1_le ht h
  have c := S1_pos ht
  have d := abs_le.1 h1
  rw [abs_le]
  constructor <;> linarith


/-! ### the joint at 31/4 -/

def fe (n : ℕ) : ℚ := 1 / (n.factorial : ℚ)
def xe : ℚ := evQ (tay fe 20 0) (31 / 32)
def xeh : ℚ := xe + 1 / 10 ^ 17

lemma exp_lo : (xe : ℝ) ≤ exp (31 / 32) := by
  have h := Real.sum_le_exp_of_nonneg (x := 31 / 32) (by norm_num) 20
  have e : ((xe : ℚ) : ℝ) = ∑ i ∈ Finset.range 20, (31 / 32 : ℝ) ^ i / i.factorial := by
    unfold xe
    rw [← ev_evQ, ev_tay]
    apply Finset.sum_congr rfl
    intro i _
    unfold fe
    push_cast
    rw [zero_add]; ring
  rw [e]; exact h

lemma exp_hi : exp (31 / 32) ≤ (xeh : ℝ) := by
  have h := Real.exp_bound' (x := 31 / 32) (by norm_num) (by norm_num) (n := 20) (by norm_num)
  have e : ((xe : ℚ) : ℝ) = ∑ i ∈ Finset.range 20, (31 / 32 : ℝ) ^ i / i.factorial := by
    unfold xe
    rw [← ev_evQ, ev_tay]
    apply Finset.sum_congr rfl
    intro i _
    unfold fe
    push_cast
    rw [zero_add]; ring
  rw [← e] at h
  refine h.trans ?_
  unfold xeh
  push_cast
  have : (31 / 32 : ℝ) ^ 20 * (20 + 1) / ((Nat.factorial 20 : ℕ) * 20) ≤ 1 / 10 ^ 17 := by norm_num [Nat.factorial]
  push_cast at this
  linarith

def sl : ℚ := 27838821814150109 / 10 ^ 16
def sh : ℚ := 27838821814150111 / 10 ^ 16

lemma sq_lo : (sl : ℝ) ≤ √(31 / 4) := by
  apply Real.le_sqrt_of_sq_le
  have : sl ^ 2 ≤ 31 / 4 := by decide +kernel
  have h : ((sl ^ 2 : ℚ) : ℝ) ≤ ((31 / 4 : ℚ) : ℝ) := by exact_mod_cast this
  push_cast at h; exact h

lemma sq_hi : √(31 / 4) ≤ (sh : ℝ) := by
  apply Real.sqrt_le_iff.2 ⟨by unfold sh; push_cast; positivity, ?_⟩
  have : 31 / 4 ≤ sh ^ 2 := by decide +kernel
  have h : ((31 / 4 : ℚ) : ℝ) ≤ ((sh ^ 2 : ℚ) : ℝ) := by exact_mod_cast this
  push_cast at h; exact h

lemma w_lo : ((xe ^ 8 / sh : ℚ) : ℝ) ≤ exp (31 / 4) / √(31 / 4) := by
  have e : exp (31 / 4) = exp (31 / 32) ^ 8 := by rw [← Real.exp_nat_mul]; norm_num
  have x0 : (0:ℝ) ≤ xe := by
    have : 0 ≤ xe := by decide +kernel
    exact_mod_cast this
  rw [e]
  push_cast
  exact div_le_div₀ (by positivity) (pow_le_pow_left₀ x0 exp_lo 8) (by positivity) sq_hi

lemma w_hi : exp (31 / 4) / √(31 / 4) ≤ ((xeh ^ 8 / sl : ℚ) : ℝ) := by
  have e : exp (31 / 4) = exp (31 / 32) ^ 8 := by rw [← Real.exp_nat_mul]; norm_num
  have s0 : (0:ℝ) < sl := by unfold sl; push_cast; positivity
  rw [e]
  push_cast
  exact div_le_div₀ (by have := (exp_pos (31/32)).le.trans exp_hi; positivity) (pow_le_pow_left₀ (exp_pos _).le exp_hi 8) s0 sq_lo

/-- both ends of the weight leave the value within ε of the reference -/
def okJump (p : List ℚ) (r ε : ℚ) : Bool :=
  decide (0 ≤ evQ p (4 / 31)) && decide ((1 - ε) * r ≤ xe ^ 8 / sh * evQ p (4 / 31)) && decide (xeh ^ 8 / sl * evQ p (4 / 31) ≤ (1 + ε) * r)

lemma jump {p : List ℚ} {r ε : ℚ} (ok : okJump p r ε = true) : |Y p (31 / 4) - r| ≤ ε * r := by
  simp only [okJump, Bool.and_eq_true, decide_eq_true_eq] at ok
  obtain ⟨⟨h0, h1⟩, h2⟩ := ok
  have v : ev p (31 / 4 : ℝ)⁻¹ = (evQ p (4 / 31) : ℚ) := by
    rw [← ev_evQ]; push_cast; norm_num
  unfold Y
  rw [v]
  have g0 : (0:ℝ) ≤ (evQ p (4 / 31) : ℚ) := by exact_mod_cast h0
  have g1 : (1 - (ε:ℝ)) * r ≤ ((xe ^ 8 / sh : ℚ) : ℝ) * (evQ p (4 / 31) : ℚ) := by exact_mod_cast h1
  have g2 : ((xeh ^ 8 / sl : ℚ) : ℝ) * (evQ p (4 / 31) : ℚ) ≤ (1 + (ε:ℝ)) * r := by exact_mod_cast h2
  have a1 := mul_le_mul_of_nonneg_right w_lo g0
  have a2 := mul_le_mul_of_nonneg_right w_hi g0
  rw [abs_le]
  constructor <;> linarith

def r0 : ℚ := evQ P0 (961 / 64)
def r1 : ℚ := 31 / 8 * evQ P1 (961 / 64)
lemma ok_j0 : okJump pa r0 (2 / 10 ^ 13) = true := by decide +kernel
lemma ok_j1 : okJump qa r1 (2 / 10 ^ 13) = true := by decide +kernel

lemma j0 : |Y pa (31 / 4) - I0 (31 / 4)| < 3 / 10 ^ 13 * I0 (31 / 4) := by
  have h := jump ok_j0
  have h2 := P0_acc (t := 961 / 64) (by norm_num) le_rfl
  have e : ev P0 (961 / 64) = (r0 : ℚ) := by unfold r0; rw [← ev_evQ]; push_cast; rfl
  have e2 : I0 (31 / 4) = S0 (961 / 64) := by unfold I0; norm_num
  rw [e] at h2
  rw [e2]
  have p : 0 < S0 (961 / 64) := lt_of_lt_of_le one_pos (S0_pos (by norm_num))
  push_cast at h
  have a := abs_le.1 h
  have b := abs_le.1 h2
  rw [abs_lt]
  constructor <;> linarith

lemma j1 : |Y qa (31 / 4) - I1 (31 / 4)| < 3 / 10 ^ 13 * I1 (31 / 4) := by
  have h := jump ok_j1
  have h2 := P1_acc (t := 961 / 64) (by norm_num) le_rfl
  have e : 31 / 8 * ev P1 (961 / 64) = (r1 : ℚ) := by
    unfold r1; push_cast; rw [← ev_evQ]; push_cast; rfl
  have e2 : I1 (31 / 4) = 31 / 8 * S1 (961 / 64) := by unfold I1; norm_num
  rw [e2]
  have p : 0 < S1 (961 / 64) := lt_of_lt_of_le one_pos (S1_pos (by norm_num))
  push_cast at h
  have a := abs_le.1 h
  have b := abs_le.1 h2
  rw [abs_lt]
  constructor <;> linarith

/-! ### reference accuracy on [31/4, 700] -/

lemma inA {u : ℝ} (h1 : (500:ℝ)⁻¹ ≤ u) (h2 : u ≤ (31 / 4 : ℝ)⁻¹) : ((1 / 500 : ℚ) : ℝ) ≤ u ∧ u ≤ ((1 / 500 : ℚ) : ℝ) + 2 * (((4 / 31 - 1 / 500) / 32 : ℚ) : ℝ) * ((15 : ℕ) + 1) := by
  constructor
  · push_cast; linarith
  · push_cast; norm_num at h2 ⊢; linarith
lemma inP {u : ℝ} (h1 : (500:ℝ)⁻¹ ≤ u) (h2 : u ≤ (31 / 4 : ℝ)⁻¹) : ((1 / 500 : ℚ) : ℝ) ≤ u ∧ u ≤ ((1 / 500 : ℚ) : ℝ) + 2 * (((4 / 31 - 1 / 500) / 8 : ℚ) : ℝ) * ((3 : ℕ) + 1) := by
  constructor
  · push_cast; linarith
  · push_cast; norm_num at h2 ⊢; linarith
lemma inB {u : ℝ} (h1 : (700:ℝ)⁻¹ ≤ u) (h2 : u ≤ (500 : ℝ)⁻¹) : ((1 / 700 : ℚ) : ℝ) ≤ u ∧ u ≤ ((1 / 700 : ℚ) : ℝ) + 2 * (((1 / 500 - 1 / 700) / 2 : ℚ) : ℝ) * ((0 : ℕ) + 1) := by
  constructor
  · push_cast; linarith
  · push_cast; norm_num at h2 ⊢; linarith

lemma accA : ∀ x ∈ Set.Icc (31 / 4 : ℝ) 500, |Y pa x - I0 x| < 21 / 10 ^ 12 * I0 x ∧ |Y qa x - I1 x| < 21 / 10 ^ 12 * I1 x := by
  have h := Y_step (p := pa) (q := qa) (a := 31 / 4) (b := 500) (K := 3 / 10 ^ 13) (δ := 2 / 10 ^ 14) (by norm_num) (by norm_num) (by norm_num)
    (fun u h1 h2 => by
      have := okAll_sound (by norm_num) (by norm_num) 15 _ ok_a0 u (inA h1 h2).1 (inA h1 h2).2
      push_cast at this; exact this)
    (fun u h1 h2 => by
      have := okAll_sound (by norm_num) (by norm_num) 15 _ ok_a1 u (inA h1 h2).1 (inA h1 h2).2
      push_cast at this; exact this)
    j0 j1 (by norm_num)
  intro x hx
  obtain ⟨a, b⟩ := h x hx
  have p0 := I0_pos x
  have p1 := I1_pos (x := x) (by linarith [hx.1])
  constructor
  · exact a.trans_le (mul_le_mul_of_nonneg_right (by norm_num) p0.le)
  · exact b.trans_le (mul_le_mul_of_nonneg_right (by norm_num) p1.le)

lemma joint {p p' : List ℚ} (x : ℚ) {δ : ℚ} (hx : 0 < x) (ok : decide (|evQ p' x⁻¹ - evQ p x⁻¹| ≤ δ * evQ p x⁻¹) = true) : |Y p' (x:ℝ) - Y p x| ≤ δ * Y p x := by
  have h : |evQ p' x⁻¹ - evQ p x⁻¹| ≤ δ * evQ p x⁻¹ := by simpa using ok
  have h' : |((evQ p' x⁻¹ : ℚ) : ℝ) - (evQ p x⁻¹ : ℚ)| ≤ δ * (evQ p x⁻¹ : ℚ) := by exact_mod_cast h
  rw [← ev_evQ, ← ev_evQ] at h'
  push_cast at h'
  have hx' : (0:ℝ) < x := by exact_mod_cast hx
  have hw : 0 ≤ exp (x:ℝ) / √(x:ℝ) := by positivity
  unfold Y
  rw [← mul_sub, abs_mul, abs_of_nonneg hw]
  calc _ ≤ exp (x:ℝ) / √(x:ℝ) * (δ * ev p (x:ℝ)⁻¹) := mul_le_mul_of_nonneg_left h' hw
    _ = _ := by ring

lemma ok_k0 : decide (|evQ pb 500⁻¹ - evQ pa 500⁻¹| ≤ 1 / 10 ^ 14 * evQ pa 500⁻¹) = true := by decide +kernel
lemma ok_k1 : decide (|evQ qb 500⁻¹ - evQ qa 500⁻¹| ≤ 1 / 10 ^ 14 * evQ qa 500⁻¹) = true := by decide +kernel

lemma accB : ∀ x ∈ Set.Icc (500 : ℝ) 700, |Y pb x - I0 x| < 23 / 10 ^ 12 * I0 x ∧ |Y qb x - I1 x| < 23 / 10 ^ 12 * I1 x := by
  obtain ⟨a0, a1⟩ := accA 500 ⟨by norm_num, le_rfl⟩
  have k0 := joint 500 (by norm_num) ok_k0
  have k1 := joint 500 (by norm_num) ok_k1
  push_cast at k0 k1
  have p0 := I0_pos 500
  have p1 := I1_pos (x := 500) (by norm_num)
  rw [abs_lt] at a0 a1
  rw [abs_le] at k0 k1
  have h := Y_step (p := pb) (q := qb) (a := 500) (b := 700) (K := 22 / 10 ^ 12) (δ := 1 / 10 ^ 15) (by norm_num) (by norm_num) (by norm_num)
    (fun u h1 h2 => by
      have := okAll_sound (by norm_num) (by norm_num) 0 _ ok_b0 u (inB h1 h2).1 (inB h1 h2).2
      push_cast at this; exact this)
    (fun u h1 h2 => by
      have := okAll_sound (by norm_num) (by norm_num) 0 _ ok_b1 u (inB h1 h2).1 (inB h1 h2).2
      push_cast at this; exact this)
    (by rw [abs_lt]; constructor <;> linarith) (by rw [abs_lt]; constructor <;> linarith) (by norm_num)
  intro x hx
  obtain ⟨a, b⟩ := h x hx
  have q0 := I0_pos x
  have q1 := I1_pos (x := x) (by linarith [hx.1])
  constructor
  · exact a.trans_le (mul_le_mul_of_nonneg_right (by norm_num) q0.le)
  · exact b.trans_le (mul_le_mul_of_nonneg_right (by norm_num) q1.le)

/-! ### other polynomials close to the reference -/

lemma ev_mono (p : List ℚ) {u U : ℝ} (h0 : 0 ≤ u) (h : u ≤ U) : |ev p u| ≤ ev (p.map abs) U := by
  induction p with
  | nil => simp [ev]
  | cons a p ih =>
    simp only [List.map_cons, ev]
    refine (abs_add_le _ _).trans ?_
    push_cast
    rw [abs_mul, abs_of_nonneg h0]
    exact add_le_add le_rfl (mul_le_mul h ih (abs_nonneg _) (h0.trans h))

/-- coefficientwise distance, weighted at U -/
def near (q p : List ℚ) (U ε : ℚ) : Bool := decide (evQ ((padd q (psc (-1) p)).map abs) U ≤ ε)

lemma near_sound {q p : List ℚ} {U ε : ℚ} (ok : near q p U ε = true) {u : ℝ} (h0 : 0 ≤ u) (h : u ≤ U) : |ev q u - ev p u| ≤ ε := by
  have o : evQ ((padd q (psc (-1) p)).map abs) U ≤ ε := by simpa [near] using ok
  have o' : ((evQ ((padd q (psc (-1) p)).map abs) U : ℚ) : ℝ) ≤ ε := by exact_mod_cast o
  rw [← ev_evQ] at o'
  have := ev_mono (padd q (psc (-1) p)) h0 h
  rw [ev_padd, ev_psc] at this
  push_cast at this
  have e : ev q u - ev p u = ev q u + -1 * ev p u := by ring
  rw [e]
  exact this.trans o'

lemma near_Y {q p : List ℚ} {U : ℚ} {x : ℝ} (hx : 0 < x) (hU : x⁻¹ ≤ U) (lowp : 3 / 10 ≤ ev p x⁻¹) (ok : near q p U (1 / 10 ^ 11) = true) :
    |Y q x - Y p x| ≤ 4 / 10 ^ 11 * Y p x := by
  have h := near_sound ok (inv_nonneg.2 hx.le) hU
  have hw : 0 ≤ exp x / √x := by positivity
  unfold Y
  rw [← mul_sub, abs_mul, abs_of_nonneg hw]
  calc _ ≤ exp x / √x * (4 / 10 ^ 11 * ev p x⁻¹) := mul_le_mul_of_nonneg_left (h.trans (by push_cast; linarith)) hw
    _ = _ := by ring

lemma low {p : List ℚ} {u : ℝ} (h : |ev [3 / 10] u| ≤ (1 : ℚ) * ev p u) : 3 / 10 ≤ ev p u := by
  simp only [ev, mul_zero, add_zero] at h
  push_cast at h
  have := le_abs_self (3 / 10 : ℝ)
  linarith

lemma fin {y z i a b : ℝ} (hi : 0 < i) (h1 : |y - z| ≤ a * z) (h2 : |z - i| < b * i) (ha : 0 ≤ a) (h : a * (1 + b) + b ≤ 1 / 10 ^ 10) : |y - i| ≤ 1 / 10 ^ 10 * i := by
  rw [abs_le] at h1 ⊢
  rw [abs_lt] at h2
  have h3 : z ≤ (1 + b) * i := by linarith
  have h4 := mul_le_mul_of_nonneg_left h3 ha
  have h5 := mul_le_mul_of_nonneg_right h hi.le
  constructor <;> nlinarith

theorem mid0 {q : List ℚ} (ok : near q pa (4 / 31) (1 / 10 ^ 11) = true) {x : ℝ} (h1 : 31 / 4 ≤ x) (h2 : x ≤ 500) : |Y q x - I0 x| ≤ 1 / 10 ^ 10 * I0 x := by
  have hx : 0 < x := by linarith
  have a1 := inv_anti₀ hx h2
  have a2 := inv_anti₀ (by norm_num) h1
  have l := low (okAll_sound (by norm_num) (by norm_num) 3 _ ok_pa x⁻¹ (inP a1 a2).1 (inP a1 a2).2)
  refine fin (I0_pos x) (near_Y hx ?_ l ok) (accA x ⟨h1, h2⟩).1 (by norm_num) (by norm_num)
  norm_num at a2 ⊢; exact a2

theorem mid1 {q : List ℚ} (ok : near q qa (4 / 31) (1 / 10 ^ 11) = true) {x : ℝ} (h1 : 31 / 4 ≤ x) (h2 : x ≤ 500) : |Y q x - I1 x| ≤ 1 / 10 ^ 10 * I1 x := by
  have hx : 0 < x := by linarith
  have a1 := inv_anti₀ hx h2
  have a2 := inv_anti₀ (by norm_num) h1
  have l := low (okAll_sound (by norm_num) (by norm_num) 3 _ ok_qa x⁻¹ (inP a1 a2).1 (inP a1 a2).2)
  refine fin (I1_pos hx) (near_Y hx ?_ l ok) (accA x ⟨h1, h2⟩).2 (by norm_num) (by norm_num)
  norm_num at a2 ⊢; exact a2

theorem far0 {q : List ℚ} (ok : near q pb (1 / 500) (1 / 10 ^ 11) = true) {x : ℝ} (h1 : 500 ≤ x) (h2 : x ≤ 700) : |Y q x - I0 x| ≤ 1 / 10 ^ 10 * I0 x := by
  have hx : 0 < x := by linarith
  have a1 := inv_anti₀ hx h2
  have a2 := inv_anti₀ (by norm_num) h1
  have l := low (okAll_sound (by norm_num) (by norm_num) 0 _ ok_pb x⁻¹ (inB a1 a2).1 (inB a1 a2).2)
  refine fin (I0_pos x) (near_Y hx ?_ l ok) (accB x ⟨h1, h2⟩).1 (by norm_num) (by norm_num)
  norm_num at a2 ⊢; exact a2

theorem far1 {q : List ℚ} (ok : near q qb (1 / 500) (1 / 10 ^ 11) = true) {x : ℝ} (h1 : 500 ≤ x) (h2 : x ≤ 700) : |Y q x - I1 x| ≤ 1 / 10 ^ 10 * I1 x := by
  have hx : 0 < x := by linarith
  have a1 := inv_anti₀ hx h2
  have a2 := inv_anti₀ (by norm_num) h1
  have l := low (okAll_sound (by norm_num) (by norm_num) 0 _ ok_qb x⁻¹ (inB a1 a2).1 (inB a1 a2).2)
  refine fin (I1_pos hx) (near_Y hx ?_ l ok) (accB x ⟨h1, h2⟩).2 (by norm_num) (by norm_num)
  norm_num at a2 ⊢; exact a2

theorem small0 {q : List ℚ} (ok : near q P0 (961 / 64) (1 / 10 ^ 11) = true) {x : ℝ} (h1 : 0 ≤ x) (h2 : x ≤ 31 / 4) : |ev q (x ^ 2 / 4) - I0 x| ≤ 1 / 10 ^ 10 * I0 x := by
  have t0 : 0 ≤ x ^ 2 / 4 := by positivity
  have t1 : x ^ 2 / 4 ≤ 961 / 64 := by nlinarith
  have h := near_sound ok t0 (by push_cast; exact t1)
  have a := P0_acc t0 t1
  have p := S0_pos t0
  unfold I0
  push_cast at h
  rw [abs_le] at h a ⊢
  constructor <;> linarith

theorem small1 {q : List ℚ} (ok : near q P1 (961 / 64) (1 / 10 ^ 11) = true) {x : ℝ} (h1 : 0 ≤ x) (h2 : x ≤ 31 / 4) : |x / 2 * ev q (x ^ 2 / 4) - I1 x| ≤ 1 / 10 ^ 10 * I1 x := by
  have t0 : 0 ≤ x ^ 2 / 4 := by positivity
  have t1 : x ^ 2 / 4 ≤ 961 / 64 := by nlinarith
  have h := near_sound ok t0 (by push_cast; exact t1)
  have a := P1_acc t0 t1
  have p := S1_pos t0
  unfold I1
  rw [← mul_sub, abs_mul, abs_of_nonneg (show 0 ≤ x / 2 by positivity)]
  have hh : |ev q (x ^ 2 / 4) - S1 (x ^ 2 / 4)| ≤ 1 / 10 ^ 10 * S1 (x ^ 2 / 4) := by
    push_cast at h
    rw [abs_le] at h a ⊢
    constructor <;> linarith
  calc _ ≤ x / 2 * (1 / 10 ^ 10 * S1 (x ^ 2 / 4)) := mul_le_mul_of_nonneg_left hh (by positivity)
    _ = _ := by ring

end PVB
