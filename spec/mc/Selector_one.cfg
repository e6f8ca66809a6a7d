INIT Init
NEXT Next
CONSTANTS
  What = "one"
  Vals = {1, 2, 3}
  Depth = 0
INVARIANTS Independent Rules LastWindow Ends Emit
CHECK_DEADLOCK FALSE
