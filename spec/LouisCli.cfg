SPECIFICATION Spec
INVARIANTS Numbered MainComplete StagesInOrder
POSTCONDITION Reached
CHECK_DEADLOCK FALSE
