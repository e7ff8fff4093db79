SPECIFICATION Spec
CONSTANTS
  B = 1000
  Alphabet = {"%", "/", "!", "1", "~a~"}
  Size = 7
INVARIANTS Advancing Whole Numbers DigitsAreNumbers Strings Stable Emitted
CHECK_DEADLOCK FALSE
