INIT Init
NEXT Next
INVARIANTS SelectedIsIt RefusedIsIt BinsOK
CHECK_DEADLOCK FALSE
