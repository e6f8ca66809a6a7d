INIT Init
NEXT Next
CONSTANTS
  What = "threshold"
  Size = 4
INVARIANTS MeanBetween VarianceDefinition Orders Rigid Ones Emit
CHECK_DEADLOCK FALSE
