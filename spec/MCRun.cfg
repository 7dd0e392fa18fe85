SPECIFICATION Spec
VIEW View
INVARIANTS OneWriter Unmixed AllStored SerialPrefix
PROPERTIES StaysComplete Terminates
CHECK_DEADLOCK FALSE
