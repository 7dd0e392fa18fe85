SPECIFICATION Spec
VIEW View
PROPERTIES UserKept DataKept OthersKept OnlyResult Usable HistReads
INVARIANT EmitOps
CHECK_DEADLOCK FALSE
