SPECIFICATION Spec
INVARIANTS OrderOfPairs Exactly
POSTCONDITION Reached
CHECK_DEADLOCK FALSE
