SPECIFICATION Spec
INVARIANTS Safe
PROPERTIES Returns Final
CHECK_DEADLOCK FALSE
