SPECIFICATION Spec
CONSTANT MaxN = 30
INVARIANTS WrongRefuted
CHECK_DEADLOCK FALSE
