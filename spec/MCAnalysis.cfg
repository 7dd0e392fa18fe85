INIT Init
NEXT Next
INVARIANTS LatestOnly BinsOK Emit
CHECK_DEADLOCK FALSE
