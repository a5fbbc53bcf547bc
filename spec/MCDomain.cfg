SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Emit Canonical RoundTrip CanonStable UnicodeTotal DeviationBounded
