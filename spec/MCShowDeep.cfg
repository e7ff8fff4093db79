SPECIFICATION Spec
CONSTANTS
  Levels = 3
  InfixSigns = {"-", "^"}
  PrefixSigns = {"-"}
  SuffixSigns = {"!"}
  Leaves = {"a"}
  Many = FALSE
  Variant = "right"
INVARIANTS ShownReadsBack FullReadsBack InOrder Emitted
CHECK_DEADLOCK FALSE
