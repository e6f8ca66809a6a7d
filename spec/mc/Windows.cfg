INIT Init
NEXT Next
CONSTANTS
  B = 4
  MaxT = 13
  Depth = 3
  Emitted = {6, 13}
INVARIANTS Windows Right Whole Emit
CHECK_DEADLOCK FALSE
