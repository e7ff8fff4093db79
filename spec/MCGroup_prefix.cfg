SPECIFICATION Spec
CONSTANTS
  Alphabet = {"a", "-", "*", "^", "!"}
  Size = 5
  Deep = 1
  Variant = "prefix-last"
INVARIANTS OneReading RefusedHaveNone 
CHECK_DEADLOCK FALSE
