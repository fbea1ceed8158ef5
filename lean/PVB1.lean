import PVB
/-! Kernel-evaluated bound, first large-argument residual. -/
open PVE Real Filter Topology MeasureTheory
namespace PVB

lemma ok_a0 : okAll (R0 pa qa) pa (2 / 10 ^ 14) ((4 / 31 - 1 / 500) / 32) 16 (1 / 500) = true := by decide +kernel

end PVB
