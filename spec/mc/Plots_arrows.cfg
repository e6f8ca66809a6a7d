CONSTANTS
  Kind = "arrows"
  Cells2 = 0
INIT Init
NEXT Next
INVARIANTS Accepted Arrows Emit
CHECK_DEADLOCK FALSE
