INIT Init
NEXT Next
CONSTANTS
  Prop = "C10"
  T = 2
  Wide = FALSE
INVARIANTS Definitions Windows Order Emit
CHECK_DEADLOCK FALSE
