INIT Init
NEXT Next
INVARIANTS Faithful Emit
CHECK_DEADLOCK FALSE
