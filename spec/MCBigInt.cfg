SPECIFICATION Spec
CONSTANTS
  B = 4
  R = 90
  Val <- Same
  Divs = {2, 3, 7, 11}
INVARIANTS RoundTrip AddOK MulOK CmpOK DivOK GcdOK SmallOK PowOK MulSmallOK WideOK
CHECK_DEADLOCK FALSE
