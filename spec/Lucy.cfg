SPECIFICATION Spec
CONSTANT MaxN = 60
INVARIANTS Invariant NeverNegative Lookups Correct
PROPERTIES Terminates
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
