INIT Init
NEXT Next
CONSTANTS
  N = 3
  Stride = 3
INVARIANTS Answer Emit
CHECK_DEADLOCK FALSE
