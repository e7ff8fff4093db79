SPECIFICATION Spec
CONSTANTS
  Alphabet = {"a", "1", "true", "\"s\"", "#1", "(", ")", "[", "]", ",", ":", ";", ".", "+", "*", "/", "^", "!", "!!"}
  Rate = 40
  Deep = 2
  MaxOps = 1
VIEW Shape
INVARIANTS Frames Completable
CHECK_DEADLOCK FALSE
