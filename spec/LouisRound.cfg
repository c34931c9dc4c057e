SPECIFICATION Spec
POSTCONDITION Reached
CHECK_DEADLOCK FALSE
