SPECIFICATION Spec
INVARIANTS Sound Complete Ordered BfsPrefix
PROPERTY Ends
CHECK_DEADLOCK FALSE
