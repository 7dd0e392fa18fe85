SPECIFICATION Spec
INVARIANT Faithful
PROPERTIES RunKeeps
CHECK_DEADLOCK FALSE
