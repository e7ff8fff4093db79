SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxMod = 6
  MaxRes = 2
INVARIANTS WrongRefuted
CHECK_DEADLOCK FALSE
