SPECIFICATION Spec
CONSTANTS
  B = 1000
  Top = 12
  Variant = "power-times"
INVARIANTS AsKnown Sharp
CHECK_DEADLOCK FALSE
