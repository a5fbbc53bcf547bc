SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Emit StartContinues ScalarsOnly MarksNeverStart
