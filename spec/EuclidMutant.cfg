SPECIFICATION Spec
CONSTANT R = 6
INVARIANTS WrongRefuted
CHECK_DEADLOCK FALSE
