INIT Init
NEXT Next
CONSTANTS
  What = "window"
  Vals = {1}
  Depth = 3
INVARIANTS Independent Rules LastWindow Ends Emit
CHECK_DEADLOCK FALSE
