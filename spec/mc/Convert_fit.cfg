SPECIFICATION Spec
CONSTANTS
  Mode = "fit"
  MaxLen = 6
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
