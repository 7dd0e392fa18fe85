SPECIFICATION Spec
INVARIANTS LastWriteDecides Wellformed
PROPERTIES NothingElse
CHECK_DEADLOCK FALSE
