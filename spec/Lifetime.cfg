SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Emit Right Ordered Own
