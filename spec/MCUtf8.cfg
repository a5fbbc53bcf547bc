SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Emit Agree InverseLaw Piecewise
