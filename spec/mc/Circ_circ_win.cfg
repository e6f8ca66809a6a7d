SPECIFICATION Spec
CONSTANTS
  Op = "circ"
  T = 4
  Records = FALSE
  Window = TRUE
INVARIANTS Definition Forward Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
