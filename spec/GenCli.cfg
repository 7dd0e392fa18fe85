SPECIFICATION Spec
CONSTRAINT OnlyOps
INVARIANT EmitOps
CHECK_DEADLOCK FALSE
