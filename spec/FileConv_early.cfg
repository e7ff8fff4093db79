SPECIFICATION Spec
CONSTANTS Size = 2
  Design = "early"
INVARIANTS Contract

CHECK_DEADLOCK FALSE
