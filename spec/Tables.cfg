CONSTANTS
  Block = 2
  LowBlocks = 3
  HighSize = 2
  Flag = 4
  TextCap = 6
  Guard = TRUE
  Emitting = TRUE
SPECIFICATION Spec
INVARIANTS Lossless RefusesOnlyOverflow Small Emit
CHECK_DEADLOCK FALSE
