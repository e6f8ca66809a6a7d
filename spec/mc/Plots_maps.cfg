CONSTANTS
  Kind = "maps"
  Cells2 = 1
INIT Init
NEXT Next
INVARIANTS Accepted Maps Emit
CHECK_DEADLOCK FALSE
