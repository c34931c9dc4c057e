SPECIFICATION Spec
INVARIANTS Segmentation CompleteAtEnd LateAhead Claims
POSTCONDITION Reached
CHECK_DEADLOCK FALSE
