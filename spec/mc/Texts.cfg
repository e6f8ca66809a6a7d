CONSTANTS MaxCells = 3 MaxSamples = 3
INIT Init
NEXT Next
INVARIANTS Bounds Known Order Empty Shift Counts Widths Emit
CHECK_DEADLOCK FALSE
