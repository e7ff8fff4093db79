SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxMod = 6
  MaxRes = 2
INVARIANTS Partial DigitSmall Correct Answered
PROPERTIES Terminates
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
