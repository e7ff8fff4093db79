SPECIFICATION Spec
CONSTANTS
  B = 1000
  Alphabet = {"#", "0", "1", "a", "~b6~", "~204b~"}
  Size = 5
INVARIANTS Advancing Whole Numbers DigitsAreNumbers Strings Stable Emitted
CHECK_DEADLOCK FALSE
