INIT Init
NEXT Next
INVARIANTS OwnOnly SimOK Emit
CHECK_DEADLOCK FALSE
