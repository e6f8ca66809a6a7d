SPECIFICATION Spec
CONSTANTS
  Op = "circ"
  T = 4
  Records = TRUE
  Window = FALSE
INVARIANTS Definition Forward Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
