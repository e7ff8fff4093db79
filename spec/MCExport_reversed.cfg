SPECIFICATION Spec
CONSTANTS
  B = 1000
  Variant = "reversed"
INVARIANTS Mirrored Apart 
CHECK_DEADLOCK FALSE
