SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Emit SetLaw Delimiters Hostname
