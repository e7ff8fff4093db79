SPECIFICATION Spec
CONSTANTS
  B = 1000
  Alphabet = {"0", "1", "2", "9", "b", "x", "_", "."}
  Size = 5
INVARIANTS Advancing Whole Numbers DigitsAreNumbers Strings Stable Emitted
CHECK_DEADLOCK FALSE
