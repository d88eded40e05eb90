SPECIFICATION Spec
INVARIANTS Typed Derived Closing Knowledge Frame Alike Sane Tell
VIEW View
CHECK_DEADLOCK FALSE
