SPECIFICATION Spec
CONSTANTS
  H = 6
INVARIANTS Bracket Right Defining FewClosest Hit Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
