INIT Init
NEXT Next
CONSTANTS
  Depth = 2
  Ways = {"csv", "id_line", "steps", "vtk"}
INVARIANTS Converts_ Counted Averaged Kept Files Emit
CHECK_DEADLOCK FALSE
