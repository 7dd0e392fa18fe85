SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK ConsistentInv HistoryInv LimitsInv LimitInv
PROPERTIES StepProp GofNeverWorse Terminates
CHECK_DEADLOCK FALSE
