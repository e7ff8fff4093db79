SPECIFICATION Spec
CONSTANTS
  B = 1000
  Variant = "right"
INVARIANTS Mirrored Apart Emitted
CHECK_DEADLOCK FALSE
