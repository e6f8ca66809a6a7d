SPECIFICATION Spec
CONSTANTS
  Mode = "vtk"
  MaxLen = 3
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
