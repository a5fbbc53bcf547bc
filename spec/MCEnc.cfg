SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Emit EncDec Total
