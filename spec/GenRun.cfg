INIT Init
NEXT Next
INVARIANTS OneWriter Unmixed AllStored Emit
CHECK_DEADLOCK FALSE
