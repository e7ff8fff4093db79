SPECIFICATION Spec
CONSTANT R = 12
INVARIANTS Combination SameGcd Correct Meaning
PROPERTIES Shrinks Terminates
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
