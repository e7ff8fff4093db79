SPECIFICATION Spec
CONSTANTS
  Alphabet = {"a", "1", "(", ")", "[", "]", ",", ":", "."}
  Size = 6
  Deep = 2
  Variant = "right"
INVARIANTS Agree Refused Emitted
CHECK_DEADLOCK FALSE
