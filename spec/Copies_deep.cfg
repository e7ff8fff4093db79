SPECIFICATION Spec
CONSTANTS
  Inputs = {1, 2, 3}
  Bad = {3}
  Size = 4
  Design = "deep"
INVARIANTS AnswerRight Emitted
CHECK_DEADLOCK FALSE
