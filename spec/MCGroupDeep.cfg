SPECIFICATION Spec
CONSTANTS
  Alphabet = {"a", "2", "-", "*", "/", "^", "!", "(", ")"}
  Size = 7
  Deep = 2
  Variant = "table"
INVARIANTS OneReading RefusedHaveNone Emitted
CHECK_DEADLOCK FALSE
