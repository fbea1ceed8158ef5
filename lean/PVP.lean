import Mathlib
/-! Polynomials as lists of rational coefficients, with bounds the kernel evaluates. -/
open Real Filter Topology MeasureTheory
namespace PVE

/-! ### polynomials with rational coefficients -/

def padd : List ℚ → List ℚ → List ℚ
  | [], q => q
  | p, [] => p
  | a :: p, b :: q => (a + b) :: padd p q

def psc (c : ℚ) (p : List ℚ) : List ℚ := p.map (c * ·)

def pmul : List ℚ → List ℚ → List ℚ
  | [], _ => []
  | a :: p, q => padd (psc a q) (0 :: pmul p q)

def pder : List ℚ → List ℚ
  | [] => []
  | _ :: p => padd p (0 :: pder p)

def pabs : List ℚ → ℚ
  | [] => 0
  | a :: p => |a| + pabs p

def evQ : List ℚ → ℚ → ℚ
  | [], _ => 0
  | a :: p, t => a + t * evQ p t

noncomputable def ev : List ℚ → ℝ → ℝ
  | [], _ => 0
  | a :: p, t => a + t * ev p t

lemma ev_padd (p q : List ℚ) (t : ℝ) : ev (padd p q) t = ev p t + ev q t := by
  induction p generalizing q with
  | nil => simp [padd, ev]
  | cons a p ih =>
    cases q with
    | nil => simp [padd, ev]
    | cons b q => simp only [padd, ev, ih]; push_cast; ring

lemma ev_psc (c : ℚ) (p : List ℚ) (t : ℝ) : ev (psc c p) t = c * ev p t := by
  induction p with
  | nil => simp [psc, ev]
  | cons a p ih =>
    simp only [psc, List.map_cons, ev] at ih ⊢
    rw [ih]; push_cast; ring

lemma ev_pmul (p q : List ℚ) (t : ℝ) : ev (pmul p q) t = ev p t * ev q t := by
  induction p with
  | nil => simp [pmul, ev]
  | cons a p ih => simp only [pmul, ev_padd, ev_psc, ev, ih]; push_cast; ring

lemma ev_pder (p : List ℚ) (t : ℝ) : HasDerivAt (ev p) (ev (pder p) t) t := by
  induction p with
  | nil => simpa [pder, ev] using hasDerivAt_const t (0:ℝ)
  | cons a p ih =>
    have h := ((hasDerivAt_id' t).mul ih).const_add (a : ℝ)
    simp only [pder, ev_padd]
    refine h.congr_deriv ?_
    simp [ev]

lemma ev_evQ (p : List ℚ) (t : ℚ) : ev p (t : ℝ) = (evQ p t : ℚ) := by
  induction p with
  | nil => simp [ev, evQ]
  | cons a p ih => simp only [ev, evQ, ih]; push_cast; ring

lemma pabs_nonneg (p : List ℚ) : 0 ≤ pabs p := by
  induction p with
  | nil => simp [pabs]
  | cons a p ih => simp only [pabs]; positivity

lemma ev_abs (p : List ℚ) {t : ℝ} (ht : |t| ≤ 1) : |ev p t| ≤ (pabs p : ℚ) := by
  induction p with
  | nil => simp [ev, pabs]
  | cons a p ih =>
    simp only [ev, pabs]
    push_cast
    refine (abs_add_le _ _).trans (add_le_add le_rfl ?_)
    rw [abs_mul]
    calc |t| * |ev p t| ≤ 1 * |ev p t| := mul_le_mul_of_nonneg_right ht (abs_nonneg _)
      _ ≤ _ := by rw [one_mul]; exact ih

end PVE
