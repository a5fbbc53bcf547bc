SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Emit Restated DecEnc Refusal
