INIT Init
NEXT Next
INVARIANTS ReadIsIt StuckIsRefused NoneIsRefused PathsAgree
CHECK_DEADLOCK FALSE
