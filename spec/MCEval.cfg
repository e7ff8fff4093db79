SPECIFICATION Spec
CONSTANTS
  B = 1000
  Top = 12
  Variant = "right"
INVARIANTS AsKnown Sharp Emitted
CHECK_DEADLOCK FALSE
