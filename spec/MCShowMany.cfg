SPECIFICATION Spec
CONSTANTS
  Levels = 2
  InfixSigns = {"*", "/", "+"}
  PrefixSigns = {"-"}
  SuffixSigns = {"!"}
  Leaves = {"a"}
  Many = TRUE
  Variant = "right"
INVARIANTS ShownReadsBack FullReadsBack InOrder Emitted
CHECK_DEADLOCK FALSE
