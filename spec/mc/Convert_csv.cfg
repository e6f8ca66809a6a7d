SPECIFICATION Spec
CONSTANTS
  Mode = "csv"
  MaxLen = 4
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
