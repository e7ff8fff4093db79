SPECIFICATION Spec
CONSTANT MaxN = 10
INVARIANTS WrongRefuted
CHECK_DEADLOCK FALSE
