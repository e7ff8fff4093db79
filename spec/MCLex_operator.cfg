SPECIFICATION Spec
CONSTANTS
  B = 1000
  Alphabet = {"a", "!", "+", "*", "/", ".", "(", ")", " "}
  Size = 5
INVARIANTS Advancing Whole Numbers DigitsAreNumbers Strings Stable Emitted
CHECK_DEADLOCK FALSE
