SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Emit Idempotent Equivalent OrderedBoth FullyComposed Boundary Piecewise
