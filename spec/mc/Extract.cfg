INIT Init
NEXT Next
CONSTANTS
  T = 5
  P = 3
INVARIANTS Rows Emit
CHECK_DEADLOCK FALSE
