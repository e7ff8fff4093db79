SPECIFICATION Spec
CONSTANTS
  B = 1000
  Design = "asbuilt"
  Depth = 2
INVARIANTS Restored Distinct Specified Emitted
CHECK_DEADLOCK FALSE
