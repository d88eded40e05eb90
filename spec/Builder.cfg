SPECIFICATION Spec
INVARIANTS RoundTrip Strict
CHECK_DEADLOCK FALSE
