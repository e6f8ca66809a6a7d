INIT Init
NEXT Next
CONSTANTS
  What = "lists"
  Size = 5
INVARIANTS MeanBetween VarianceDefinition Orders Rigid Ones Emit
CHECK_DEADLOCK FALSE
