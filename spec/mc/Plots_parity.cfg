CONSTANTS
  Kind = "parity"
  Cells2 = 1
INIT Init
NEXT Next
INVARIANTS Accepted Parities Emit
CHECK_DEADLOCK FALSE
