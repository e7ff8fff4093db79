SPECIFICATION Spec
CONSTANTS
  MaxBase = 9
  MaxExp = 9
  MaxFact = 12
INVARIANTS Invariant Correct
PROPERTIES Terminates
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
