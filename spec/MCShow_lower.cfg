SPECIFICATION Spec
CONSTANTS
  Levels = 2
  InfixSigns = {"-", "^"}
  PrefixSigns = {"-"}
  SuffixSigns = {"!"}
  Leaves = {"a"}
  Many = FALSE
  Variant = "lower-only"
INVARIANTS ShownReadsBack FullReadsBack InOrder 
CHECK_DEADLOCK FALSE
