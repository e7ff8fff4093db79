SPECIFICATION Spec
CONSTANTS
  Alphabet = {"a", "b", "(", ")", "."}
  Size = 6
  Deep = 2
  Variant = "dot-last"
INVARIANTS Agree Refused
CHECK_DEADLOCK FALSE
