CONSTANTS
  Block = 2
  LowBlocks = 2
  HighSize = 2
  Flag = 2
  TextCap = 6
  Guard = FALSE
  Emitting = FALSE
SPECIFICATION Spec
INVARIANTS Lossless RefusesOnlyOverflow Small
CHECK_DEADLOCK FALSE
