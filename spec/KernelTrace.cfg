SPECIFICATION Spec
CONSTANTS
  B = 1000
  SmallMax = 3000
CHECK_DEADLOCK FALSE
