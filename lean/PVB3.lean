import PVB
/-! Kernel-evaluated bounds, small-argument polynomials. -/
open PVE Real Filter Topology MeasureTheory
namespace PVB

lemma ok_P0 : okAll (padd P0 (psc (-1) T0)) T0 (1 / 10 ^ 14) (961 / 64 / 16) 8 0 = true := by decide +kernel
lemma ok_P1 : okAll (padd P1 (psc (-1) T1)) T1 (1 / 10 ^ 14) (961 / 64 / 16) 8 0 = true := by decide +kernel

end PVB
