SPECIFICATION Spec
INVARIANTS Consistent
PROPERTIES Stable
POSTCONDITION Reached
CHECK_DEADLOCK FALSE
