SPECIFICATION Spec
CONSTANTS
  Mode = "chain"
  MaxLen = 3
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
