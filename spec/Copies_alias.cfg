SPECIFICATION Spec
CONSTANTS
  Inputs = {1, 2, 3}
  Bad = {3}
  Size = 5
  Design = "alias"
INVARIANTS AnswerRight 
CHECK_DEADLOCK FALSE
