SPECIFICATION Spec
CONSTANTS
  B = 1000
  Design = "two"
  Depth = 1
INVARIANTS Restored Distinct Specified
CHECK_DEADLOCK FALSE
