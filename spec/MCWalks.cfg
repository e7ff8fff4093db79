SPECIFICATION Spec
CONSTANTS
  B = 1000
  MaxSeq = 150
  MaxPrime = 3000
INVARIANTS FactOK FibOK PrimeOK AnchorOK TenOK BackOK
CHECK_DEADLOCK FALSE
