SPECIFICATION Spec
CONSTANTS Size = 2
  Design = "asbuilt"
INVARIANTS Contract Emitted
PROPERTY Ends
CHECK_DEADLOCK FALSE
