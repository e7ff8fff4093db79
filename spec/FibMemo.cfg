SPECIFICATION Spec
CONSTANT MaxN = 46
INVARIANTS MemoExact Decreasing Correct Cassini
PROPERTIES Terminates
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
