SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Emit Agree BidiAgree AceAgree
