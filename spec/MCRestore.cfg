INIT Init
NEXT Next
INVARIANTS Copies Emit
CHECK_DEADLOCK FALSE
