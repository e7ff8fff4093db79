SPECIFICATION Spec
CONSTANTS
  Alphabet = {"let", "a", "1", "\"s\"", "(", ")", "[", "]", ",", ":", ";", ".", "+", "-", "!"}
  Rate = 1
  Deep = 1
  MaxOps = 1
VIEW Shape
INVARIANTS Frames Completable
CHECK_DEADLOCK FALSE
