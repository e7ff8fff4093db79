SPECIFICATION Spec
CONSTANTS
  Alphabet = {"a", "1", "\"s\"", "(", ")", "[", "]", ",", ":", "+", "!", ";"}
  Size = 6
  Deep = 2
  Variant = "right"
INVARIANTS Loose NoSilentBreak BlankKeeps Bracketed Statements Broken Emitted Tried
CHECK_DEADLOCK FALSE
