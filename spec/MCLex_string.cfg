SPECIFICATION Spec
CONSTANTS
  B = 1000
  Alphabet = {"\"", "\\", "a", "#", "~a~"}
  Size = 6
INVARIANTS Advancing Whole Numbers DigitsAreNumbers Strings Stable Emitted
CHECK_DEADLOCK FALSE
