INIT Init
NEXT Next
CONSTANTS
  Depth = 3
INVARIANTS Frame Fields Kept Unshared Emit
CHECK_DEADLOCK FALSE
