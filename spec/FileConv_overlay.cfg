SPECIFICATION Spec
CONSTANTS Size = 2
  Design = "overlay"
INVARIANTS Contract

CHECK_DEADLOCK FALSE
