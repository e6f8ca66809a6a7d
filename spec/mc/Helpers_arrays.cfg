INIT Init
NEXT Next
CONSTANTS
  What = "arrays"
  Size = 0
INVARIANTS MeanBetween VarianceDefinition Orders Rigid Ones Emit
CHECK_DEADLOCK FALSE
