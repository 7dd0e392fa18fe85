INIT Init
NEXT Next
INVARIANTS Wellformed Emit
CHECK_DEADLOCK FALSE
