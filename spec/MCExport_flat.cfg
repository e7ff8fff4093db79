SPECIFICATION Spec
CONSTANTS
  B = 1000
  Variant = "flat"
INVARIANTS Mirrored Apart 
CHECK_DEADLOCK FALSE
