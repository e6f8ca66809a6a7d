SPECIFICATION Spec
CONSTANTS
  Op = "circ"
  T = 7
  Records = FALSE
  Window = FALSE
INVARIANTS Definition Forward Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
