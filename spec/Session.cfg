SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Emit Pure OnlyWhenNeeded FailureIsTotal
PROPERTIES Sticky
