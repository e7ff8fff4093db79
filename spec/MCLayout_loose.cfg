SPECIFICATION Spec
CONSTANTS
  Alphabet = {"a", "1", "\"s\"", "(", ")", "[", "]", ",", ":", "+", "!", ";"}
  Size = 4
  Deep = 2
  Variant = "loose-prefix"
INVARIANTS Loose NoSilentBreak BlankKeeps Bracketed Statements Broken
CHECK_DEADLOCK FALSE
