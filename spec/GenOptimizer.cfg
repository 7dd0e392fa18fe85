INIT Init
NEXT Next
INVARIANTS ConsistentInv HistoryInv Emit
CHECK_DEADLOCK FALSE
