SPECIFICATION Spec
INVARIANTS Refines EqualIffSame
CHECK_DEADLOCK FALSE
