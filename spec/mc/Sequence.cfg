INIT Init
NEXT Next
CONSTANTS
  Depth = 2
INVARIANTS Fresh Repeatable AddUp Fewer Emit
CHECK_DEADLOCK FALSE
