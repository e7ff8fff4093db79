SPECIFICATION Spec
CONSTANTS
  B = 1000
  R = 28
  Val <- Edge
  Divs = {2, 7, 997, 46337, 2000003}
INVARIANTS RoundTrip AddOK MulOK CmpOK DivOK GcdOK SmallOK  MulSmallOK WideOK
CHECK_DEADLOCK FALSE
