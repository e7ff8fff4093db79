SPECIFICATION Spec
CONSTANTS Size = 2
  Design = "silent"
INVARIANTS Contract

CHECK_DEADLOCK FALSE
