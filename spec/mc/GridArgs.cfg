INIT Init
NEXT Next
INVARIANTS Refusals Grids Emit
CHECK_DEADLOCK FALSE
