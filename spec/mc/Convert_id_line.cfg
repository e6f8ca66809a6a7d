SPECIFICATION Spec
CONSTANTS
  Mode = "id_line"
  MaxLen = 4
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
