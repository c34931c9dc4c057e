SPECIFICATION Spec
INVARIANTS InPlace AllReported Bounded
POSTCONDITION Reached
CHECK_DEADLOCK FALSE
