SPECIFICATION Spec
CONSTANTS
  Alphabet = {"a", "2", "-", "*", "/", "^", ".", "!", "!!", "(", ")"}
  Size = 5
  Deep = 2
  Variant = "table"
INVARIANTS OneReading RefusedHaveNone Emitted
CHECK_DEADLOCK FALSE
