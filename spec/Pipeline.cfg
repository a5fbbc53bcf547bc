SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Emit Refines FailClosed AsciiOutput UnicodeNeverFails
PROPERTIES GrowsOnly StageOrder Ends
