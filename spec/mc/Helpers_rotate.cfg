INIT Init
NEXT Next
CONSTANTS
  What = "rotate"
  Size = 0
INVARIANTS MeanBetween VarianceDefinition Orders Rigid Ones Emit
CHECK_DEADLOCK FALSE
