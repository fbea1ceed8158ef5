import Mathlib
/-! Chains grown bond by bond (C15). -/
namespace PVM
open Real Finset

theorem height (z : ℝ) (h : -1 ≤ z) (h' : z ≤ 1) : (sin (arccos z))^2 = 1 - z^2 := by
  rw [sin_arccos, sq_sqrt]; nlinarith

/-- turning the unit vector r by the angle with cosine c, towards a direction chosen by t, A and B -/
theorem cone (r0 r1 r2 t0 t1 t2 c s A B : ℝ) (hcs : s^2 + c^2 = 1) (hAB : A^2 + B^2 = 1) (hr : r0^2 + r1^2 + r2^2 = 1) (u0 u1 u2 q : ℝ)
    (hq : q^2 = (r1*t2 - r2*t1)^2 + (r2*t0 - r0*t2)^2 + (r0*t1 - r1*t0)^2) (hq0 : q ≠ 0)
    (h0 : u0 = (r1*t2 - r2*t1)/q) (h1 : u1 = (r2*t0 - r0*t2)/q) (h2 : u2 = (r0*t1 - r1*t0)/q) :
    ((u0 * A + (r1*u2 - r2*u1) * B) * s + r0 * c)^2 + ((u1 * A + (r2*u0 - r0*u2) * B) * s + r1 * c)^2
      + ((u2 * A + (r0*u1 - r1*u0) * B) * s + r2 * c)^2 = 1 ∧
    r0 * ((u0 * A + (r1*u2 - r2*u1) * B) * s + r0 * c) + r1 * ((u1 * A + (r2*u0 - r0*u2) * B) * s + r1 * c)
      + r2 * ((u2 * A + (r0*u1 - r1*u0) * B) * s + r2 * c) = c := by
  have hru : r0*u0 + r1*u1 + r2*u2 = 0 := by rw [h0, h1, h2]; field_simp; ring
  have huu : u0^2 + u1^2 + u2^2 = 1 := by
    rw [h0, h1, h2]; field_simp; linear_combination -hq
  have hvv : (r1*u2 - r2*u1)^2 + (r2*u0 - r0*u2)^2 + (r0*u1 - r1*u0)^2 = 1 := by
    have : (r1*u2 - r2*u1)^2 + (r2*u0 - r0*u2)^2 + (r0*u1 - r1*u0)^2 = (r0^2+r1^2+r2^2)*(u0^2+u1^2+u2^2) - (r0*u0 + r1*u1 + r2*u2)^2 := by ring
    rw [this, hr, huu, hru]; norm_num
  constructor
  · linear_combination s^2 * A^2 * huu + s^2 * B^2 * hvv + s^2 * hAB + c^2 * hr + hcs + 2 * s * c * A * hru
  · linear_combination s * A * hru + c * hr

/-- the chain has come no further than its number of bonds -/
theorem reach (p0 p1 p2 : ℕ → ℝ) (l : ℕ → ℝ) (h0 : p0 0 = 0) (h1 : p1 0 = 0) (h2 : p2 0 = 0) (hl : ∀ k, 0 ≤ l k)
    (hb : ∀ k, (p0 (k+1) - p0 k)^2 + (p1 (k+1) - p1 k)^2 + (p2 (k+1) - p2 k)^2 = (l k)^2) (n : ℕ) :
    √((p0 n)^2 + (p1 n)^2 + (p2 n)^2) ≤ ∑ k ∈ range n, l k := by
  have hs : ∀ n, 0 ≤ ∑ k ∈ range n, l k := fun n => sum_nonneg fun k _ => hl k
  rw [sqrt_le_left (hs n)]
  induction n with
  | zero => simp [h0, h1, h2]
  | succ n ih =>
    have hk := hb n
    rw [sum_range_succ]
    have hc : p0 n * (p0 (n+1) - p0 n) + p1 n * (p1 (n+1) - p1 n) + p2 n * (p2 (n+1) - p2 n) ≤ (∑ k ∈ range n, l k) * l n := by
      refine le_of_abs_le (abs_le_of_sq_le_sq ?_ (mul_nonneg (hs n) (hl n)))
      calc _ ≤ ((p0 n)^2 + (p1 n)^2 + (p2 n)^2) * ((p0 (n+1) - p0 n)^2 + (p1 (n+1) - p1 n)^2 + (p2 (n+1) - p2 n)^2) := by
            nlinarith [sq_nonneg (p0 n * (p1 (n+1) - p1 n) - p1 n * (p0 (n+1) - p0 n)), sq_nonneg (p1 n * (p2 (n+1) - p2 n) - p2 n * (p1 (n+1) - p1 n)),
              sq_nonneg (p2 n * (p0 (n+1) - p0 n) - p0 n * (p2 (n+1) - p2 n))]
        _ ≤ _ := by
            rw [hk, mul_pow]
            exact mul_le_mul_of_nonneg_right ih (sq_nonneg _)
    nlinarith

section
variable {E : Type*} [NormedAddCommGroup E] [InnerProductSpace ℝ E]

theorem pair (b d : E) (c x y : ℝ) (hb : ‖b‖ = 1) (hd : ‖d‖ = 1) (hc : inner ℝ b d = c) :
    ‖x • b + y • d‖ = √(x^2 + y^2 + 2*x*y*c) := by
  rw [← Real.sqrt_sq (norm_nonneg (x • b + y • d)), norm_add_sq_real, norm_smul, norm_smul, inner_smul_left, inner_smul_right, hb, hd, hc]
  congr 1
  simp only [norm_eq_abs, mul_one, sq_abs, conj_trivial]
  ring

variable (P : ℕ → E) (c : ℝ) (h0 : P 0 = 0) (hb : ∀ k, ‖P (k+1) - P k‖ = 1) (hc : ∀ k, inner ℝ (P (k+1) - P k) (P (k+2) - P (k+1)) = c)
include h0 hb hc

theorem even (m : ℕ) : ‖P (2*m)‖ ≤ m * √(2 + 2*c) := by
  induction m with
  | zero => simp [h0]
  | succ m ih =>
    have h := pair (P (2*m+1) - P (2*m)) (P (2*m+2) - P (2*m+1)) c 1 1 (hb _) (hb _) (hc _)
    have e : P (2*(m+1)) = P (2*m) + ((1:ℝ) • (P (2*m+1) - P (2*m)) + (1:ℝ) • (P (2*m+2) - P (2*m+1))) := by
      rw [one_smul, one_smul]; show P (2*m+2) = _; abel
    rw [e]
    refine (norm_add_le _ _).trans ?_
    rw [h]
    push_cast
    have : (1:ℝ)^2 + 1^2 + 2*1*1*c = 2 + 2*c := by ring
    rw [this]; linarith

theorem odd (m : ℕ) : ‖P (2*m+1)‖ ≤ √((m+1)^2 + m^2 + 2*(m+1)*m*c) := by
  rcases Nat.eq_zero_or_pos m with hm | hm
  · subst hm
    have := hb 0
    rw [h0, sub_zero] at this
    simp [this]
  set R := √((m+1:ℝ)^2 + m^2 + 2*(m+1)*m*c) with hR
  have R0 : 0 ≤ R := Real.sqrt_nonneg _
  have R' : √((m:ℝ)^2 + (m+1)^2 + 2*m*(m+1)*c) = R := by rw [hR]; congr 1; ring
  have key : ∀ j ≤ m, ‖((m:ℝ)*(m+1)) • P (2*j) + ((j:ℝ)*(m+1)) • (P (2*j+1) - P (2*j))‖ ≤ j*(m+1)*R := by
    intro j
    induction j with
    | zero => intro _; simp [h0]
    | succ j ih =>
      intro hj
      have hjm : (j:ℝ) + 1 ≤ m := by exact_mod_cast hj
      have a1 := pair (P (2*j+1) - P (2*j)) (P (2*j+2) - P (2*j+1)) c (m+1) m (hb _) (hb _) (hc _)
      have a2 := pair (P (2*j+2) - P (2*j+1)) (P (2*j+3) - P (2*j+2)) c m (m+1) (hb _) (hb _) (hc _)
      rw [← hR] at a1
      rw [R'] at a2
      have e : ((m:ℝ)*(m+1)) • P (2*(j+1)) + (((j+1:ℕ):ℝ)*(m+1)) • (P (2*(j+1)+1) - P (2*(j+1)))
          = (((m:ℝ)*(m+1)) • P (2*j) + ((j:ℝ)*(m+1)) • (P (2*j+1) - P (2*j)))
            + (((m:ℝ)-j) • ((m+1:ℝ) • (P (2*j+1) - P (2*j)) + (m:ℝ) • (P (2*j+2) - P (2*j+1)))
            + ((j:ℝ)+1) • ((m:ℝ) • (P (2*j+2) - P (2*j+1)) + (m+1:ℝ) • (P (2*j+3) - P (2*j+2)))) := by
        show ((m:ℝ)*(m+1)) • P (2*j+2) + (((j+1:ℕ):ℝ)*(m+1)) • (P (2*j+3) - P (2*j+2)) = _
        push_cast
        module
      rw [e]
      refine (norm_add_le _ _).trans ((add_le_add (ih (by omega)) (norm_add_le _ _)).trans ?_)
      rw [norm_smul, norm_smul, a1, a2, norm_eq_abs, norm_eq_abs, abs_of_nonneg (by linarith), abs_of_nonneg (by positivity)]
      push_cast
      apply le_of_eq; ring
  have h := key m le_rfl
  have e : ((m:ℝ)*(m+1)) • P (2*m) + ((m:ℝ)*(m+1)) • (P (2*m+1) - P (2*m)) = ((m:ℝ)*(m+1)) • P (2*m+1) := by module
  have mp : (0:ℝ) < m*(m+1) := by have : (0:ℝ) < m := by exact_mod_cast hm
                                  positivity
  rw [e, norm_smul, norm_eq_abs, abs_of_pos mp] at h
  exact le_of_mul_le_mul_left h mp
end

/-- a freely rotating chain: the largest distance it reaches -/
noncomputable def stretch (N : ℕ) (c : ℝ) : ℝ := if N % 2 = 0 then √(2 + 2*c) * N / 2 else √(((N:ℝ)^2 + 1 + ((N:ℝ)^2 - 1) * c) / 2)

theorem rotating (p0 p1 p2 : ℕ → ℝ) (c : ℝ) (h0 : p0 0 = 0) (h1 : p1 0 = 0) (h2 : p2 0 = 0)
    (hb : ∀ k, (p0 (k+1) - p0 k)^2 + (p1 (k+1) - p1 k)^2 + (p2 (k+1) - p2 k)^2 = 1)
    (hc : ∀ k, (p0 (k+1) - p0 k) * (p0 (k+2) - p0 (k+1)) + (p1 (k+1) - p1 k) * (p1 (k+2) - p1 (k+1)) + (p2 (k+1) - p2 k) * (p2 (k+2) - p2 (k+1)) = c)
    (n : ℕ) : √((p0 n)^2 + (p1 n)^2 + (p2 n)^2) ≤ stretch n c := by
  let P : ℕ → EuclideanSpace ℝ (Fin 3) := fun k => !₂[p0 k, p1 k, p2 k]
  have P0 : P 0 = 0 := by
    ext i; fin_cases i <;> simp [P, h0, h1, h2]
  have nP : ∀ k, ‖P k‖ = √((p0 k)^2 + (p1 k)^2 + (p2 k)^2) := by
    intro k; rw [EuclideanSpace.norm_eq, Fin.sum_univ_three]; simp [P]
  have nb : ∀ k, ‖P (k+1) - P k‖ = 1 := by
    intro k; rw [EuclideanSpace.norm_eq, Fin.sum_univ_three]; simp [P]; exact hb k
  have ni : ∀ k, inner ℝ (P (k+1) - P k) (P (k+2) - P (k+1)) = c := by
    intro k
    have := hc k
    rw [EuclideanSpace.inner_eq_star_dotProduct]
    simp [P, dotProduct, Fin.sum_univ_three]
    linarith
  rw [← nP, stretch]
  rcases Nat.even_or_odd' n with ⟨m, hm | hm⟩
  · have := even P c P0 nb ni m
    subst hm
    rw [if_pos (by omega)]
    push_cast
    linarith
  · have := odd P c P0 nb ni m
    subst hm
    rw [if_neg (by omega)]
    refine this.trans (Real.sqrt_le_sqrt (le_of_eq ?_))
    push_cast; ring

theorem root {x a b c : ℝ} (h : x = a ^ 2 + b ^ 2 + c ^ 2) : (√x) ^ 2 = a ^ 2 + b ^ 2 + c ^ 2 := by
  rw [Real.sq_sqrt (by rw [h]; positivity), h]

theorem bin (w y : ℝ) (hw : 0 < w) (b : ℕ) (P : ℕ → Prop) (hP : ∀ i ≤ b, (P i ↔ y < w * (i + 1))) (hy : 0 ≤ y) :
    (P b ∧ ∀ i < b, ¬ P i) ↔ (w * b ≤ y ∧ y < w * (b + 1)) := by
  constructor
  · rintro ⟨h, h'⟩
    refine ⟨?_, (hP b le_rfl).1 h⟩
    rcases Nat.eq_zero_or_pos b with rfl | hb
    · simpa using hy
    · have := h' (b - 1) (by omega)
      rw [hP (b - 1) (by omega), not_lt] at this
      have hc : ((b - 1 : ℕ) : ℝ) + 1 = b := by rw [Nat.cast_sub hb]; push_cast; ring
      rwa [hc] at this
  · rintro ⟨h, h'⟩
    refine ⟨(hP b le_rfl).2 h', fun i hi => ?_⟩
    rw [hP i hi.le, not_lt]
    refine le_trans (mul_le_mul_of_nonneg_left ?_ hw.le) h
    exact_mod_cast hi

open Classical in
theorem histogram (NB : ℕ) (w : ℝ) (hw : 0 < w) (x : ℕ → ℝ) (hx : ∀ s, 0 ≤ x s) (P : ℕ → ℕ → Prop)
    (hP : ∀ s b, b < NB → (P s b ↔ x s < w * (b + 1))) (C : ℕ → ℕ → ℤ) (h0 : ∀ b < NB, C 0 b = 0)
    (hs : ∀ s b, b < NB → C (s+1) b = C s b + (if P s b ∧ ∀ i < b, ¬ P s i then 1 else 0)) (M : ℕ) :
    (∀ b < NB, C M b = #{s ∈ range M | w * b ≤ x s ∧ x s < w * (b + 1)}) ∧
    ∑ b ∈ range NB, C M b = #{s ∈ range M | x s < w * NB} := by
  have hc : ∀ b < NB, C M b = #{s ∈ range M | w * b ≤ x s ∧ x s < w * (b + 1)} := by
    intro b hb
    induction M with
    | zero => simpa using h0 b hb
    | succ M ih =>
      rw [hs M b hb, ih, range_add_one, filter_insert]
      simp only [bin w (x M) hw b (P M) (fun i hi => hP M i (by omega)) (hx M)]
      split_ifs with h
      · rw [card_insert_of_notMem (by simp)]; push_cast; ring
      · simp
  refine ⟨hc, ?_⟩
  rw [sum_congr rfl fun b hb => hc b (mem_range.1 hb)]
  clear hc h0 hs hP
  induction NB with
  | zero =>
    have h : ∀ s ∈ range M, ¬ x s < w * ((0:ℕ):ℝ) := by
      intro s _; simpa using hx s
    rw [filter_false_of_mem h]; simp
  | succ n ih =>
    rw [sum_range_succ, ih]
    norm_cast
    rw [← card_union_of_disjoint]
    · congr 1
      ext s
      simp only [mem_union, mem_filter, mem_range]
      have hn : w * (n:ℝ) ≤ w * ((n:ℝ) + 1) := by nlinarith
      push_cast
      constructor
      · rintro (⟨a, b⟩ | ⟨a, b, c⟩)
        · exact ⟨a, by linarith⟩
        · exact ⟨a, c⟩
      · rintro ⟨a, b⟩
        rcases lt_or_ge (x s) (w * n) with h | h
        · exact Or.inl ⟨a, h⟩
        · exact Or.inr ⟨a, h, b⟩
    · rw [disjoint_left]
      intro s h1 h2
      simp only [mem_filter] at h1 h2
      exact absurd h1.2 (not_lt.2 h2.2.1)

/-- the longest chain of N bonds at the angle θ to each other, per bond -/
noncomputable def extent (N : ℕ) (θ : ℝ) : ℝ := stretch N (cos θ) / N

theorem extent_even {N : ℕ} (h0 : 0 < N) (h : N % 2 = 0) (θ : ℝ) : extent N θ = √(2 + 2*cos θ) / 2 := by
  have : (N:ℝ) ≠ 0 := by exact_mod_cast h0.ne'
  rw [extent, stretch, if_pos h]; field_simp

theorem extent_odd {N : ℕ} (h : N % 2 = 1) (θ : ℝ) : extent N θ = √(((N:ℝ)^2 + 1 + ((N:ℝ)^2 - 1) * cos θ) / 2) / N := by
  rw [extent, stretch, if_neg (by omega)]

theorem extent_pos {N : ℕ} (h0 : 0 < N) {θ : ℝ} (h1 : 0 < θ) (h2 : θ < π) : 0 < extent N θ := by
  have hc : -1 < cos θ := by
    rw [← cos_pi]; exact cos_lt_cos_of_nonneg_of_le_pi h1.le le_rfl h2
  have hN : (1:ℝ) ≤ N := by exact_mod_cast h0
  rcases Nat.mod_two_eq_zero_or_one N with h | h
  · rw [extent_even h0 h]; exact div_pos (sqrt_pos.2 (by linarith)) two_pos
  · rw [extent_odd h]; exact div_pos (sqrt_pos.2 (by nlinarith [mul_nonneg (by nlinarith : (0:ℝ) ≤ (N:ℝ)^2 - 1) (by linarith : (0:ℝ) ≤ 1 + cos θ)])) (by linarith)

end PVM
