SPECIFICATION Spec
CONSTANTS
  B = 1000
CHECK_DEADLOCK FALSE
