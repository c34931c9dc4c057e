SPECIFICATION Spec
INVARIANTS OncePerTest TotalsAddUp CellByCell
POSTCONDITION Reached
CHECK_DEADLOCK FALSE
