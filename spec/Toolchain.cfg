CONSTANT Depth = 3
SPECIFICATION Spec
INVARIANTS LastWins Emit
PROPERTY NoOps
CHECK_DEADLOCK FALSE
