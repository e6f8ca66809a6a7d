SPECIFICATION Spec
CONSTANTS
  Op = "circ2"
  T = 6
  Records = FALSE
  Window = FALSE
INVARIANTS Definition Forward Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
