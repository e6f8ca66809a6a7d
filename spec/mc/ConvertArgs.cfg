CONSTANTS
  MaxOff = 2
INIT Init
NEXT Next
INVARIANTS Spelling Refusals Decides Emit
CHECK_DEADLOCK FALSE
