INIT Init
NEXT Next
CONSTANTS
  What = "two"
  Vals = {1, 2}
  Depth = 0
INVARIANTS Independent Rules LastWindow Ends Emit
CHECK_DEADLOCK FALSE
