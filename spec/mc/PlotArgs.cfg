INIT Init
NEXT Next
INVARIANTS Refusals Ignored Coloured Emit
CHECK_DEADLOCK FALSE
