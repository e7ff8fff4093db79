SPECIFICATION Spec
CONSTANTS
  B = 1000
  Alphabet = {"a", ":", "_", "1", "~301~", "~2237~"}
  Size = 5
INVARIANTS Advancing Whole Numbers DigitsAreNumbers Strings Stable Emitted
CHECK_DEADLOCK FALSE
