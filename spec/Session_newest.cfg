SPECIFICATION Spec
CONSTANTS
  Users = {u1, u2}
  Inputs = {a, b, x}
  Bad = {x}
  MaxInputs = 5
  Design = "newest"
INVARIANTS AnswersRight StateRight NoPanic Numbered
PROPERTIES Kept
CHECK_DEADLOCK FALSE
