SPECIFICATION Spec
CONSTANTS
  Mode = "interp"
  MaxLen = 6
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
