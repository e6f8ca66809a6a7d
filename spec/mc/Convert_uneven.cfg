SPECIFICATION Spec
CONSTANTS
  Mode = "uneven"
  MaxLen = 5
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
