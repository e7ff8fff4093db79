SPECIFICATION Spec
CONSTANTS
  Levels = 2
  InfixSigns = {"+", "-", "*", "/", "^"}
  PrefixSigns = {"-", "!"}
  SuffixSigns = {"!", "!!"}
  Leaves = {"a", "b"}
  Many = FALSE
  Variant = "right"
INVARIANTS ShownReadsBack FullReadsBack InOrder Emitted
CHECK_DEADLOCK FALSE
