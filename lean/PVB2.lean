import PVB
/-! Kernel-evaluated bound, second large-argument residual. -/
open PVE Real Filter Topology MeasureTheory
namespace PVB

lemma ok_a1 : okAll (R1 pa qa) qa (2 / 10 ^ 14) ((4 / 31 - 1 / 500) / 32) 16 (1 / 500) = true := by decide +kernel

end PVB
