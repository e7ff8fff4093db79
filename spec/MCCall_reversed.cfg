SPECIFICATION Spec
CONSTANTS
  Alphabet = {"a", "(", ")", ",", "1"}
  Size = 7
  Deep = 2
  Variant = "reversed"
INVARIANTS Agree Refused
CHECK_DEADLOCK FALSE
