SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANTS Safe
PROPERTIES Final
CHECK_DEADLOCK FALSE
