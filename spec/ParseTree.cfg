SPECIFICATION Spec
INVARIANTS Unambig
CHECK_DEADLOCK FALSE
