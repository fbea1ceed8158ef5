import PVB
/-! Kernel-evaluated bounds, remaining large-argument polynomials. -/
open PVE Real Filter Topology MeasureTheory
namespace PVB

lemma ok_b0 : okAll (R0 pb qb) pb (1 / 10 ^ 15) ((1 / 500 - 1 / 700) / 2) 1 (1 / 700) = true := by decide +kernel
lemma ok_b1 : okAll (R1 pb qb) qb (1 / 10 ^ 15) ((1 / 500 - 1 / 700) / 2) 1 (1 / 700) = true := by decide +kernel
lemma ok_pa : okAll [3 / 10] pa 1 ((4 / 31 - 1 / 500) / 8) 4 (1 / 500) = true := by decide +kernel
lemma ok_qa : okAll [3 / 10] qa 1 ((4 / 31 - 1 / 500) / 8) 4 (1 / 500) = true := by decide +kernel
lemma ok_pb : okAll [3 / 10] pb 1 ((1 / 500 - 1 / 700) / 2) 1 (1 / 700) = true := by decide +kernel
lemma ok_qb : okAll [3 / 10] qb 1 ((1 / 500 - 1 / 700) / 2) 1 (1 / 700) = true := by decide +kernel

end PVB
