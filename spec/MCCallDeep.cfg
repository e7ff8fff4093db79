SPECIFICATION Spec
CONSTANTS
  Alphabet = {"a", "1", "(", ")", "[", "]", ",", ":", "."}
  Size = 9
  Deep = 3
  Variant = "right"
INVARIANTS Agree Refused Emitted
CHECK_DEADLOCK FALSE
