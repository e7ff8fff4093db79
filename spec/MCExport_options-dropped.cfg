SPECIFICATION Spec
CONSTANTS
  B = 1000
  Variant = "options-dropped"
INVARIANTS Mirrored Apart 
CHECK_DEADLOCK FALSE
