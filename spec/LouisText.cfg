SPECIFICATION Spec
INVARIANTS Segmentation CompleteAtEnd
POSTCONDITION Reached
CHECK_DEADLOCK FALSE
