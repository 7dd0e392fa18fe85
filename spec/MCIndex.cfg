SPECIFICATION Spec
INVARIANTS Isolated Emit
PROPERTIES OnlyOwn
CHECK_DEADLOCK FALSE
