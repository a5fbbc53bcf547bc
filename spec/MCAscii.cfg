SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Emit CarveOut
