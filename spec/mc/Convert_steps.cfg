SPECIFICATION Spec
CONSTANTS
  Mode = "steps"
  MaxLen = 3
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
