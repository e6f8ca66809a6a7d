SPECIFICATION Spec
CONSTANTS
  B = 4
  MaxT = 10
  Depth = 4
  Emitted = 10
INVARIANTS Windows Right Emit
CHECK_DEADLOCK FALSE
