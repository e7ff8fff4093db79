SPECIFICATION Spec
CONSTANTS
  Alphabet = {"a", "1", "true", "\"s\"", "#1", "(", ")", "[", "]", ",", ":", ";", ".", "+", "*", "/", "^", "!", "!!"}
  Rate = 1
  Deep = 1
  MaxOps = 1
VIEW Shape
INVARIANTS Frames Completable
CHECK_DEADLOCK FALSE
