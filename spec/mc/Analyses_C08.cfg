INIT Init
NEXT Next
CONSTANTS
  Prop = "C08"
  T = 2
  Wide = FALSE
INVARIANTS Definitions Windows Order Emit
CHECK_DEADLOCK FALSE
