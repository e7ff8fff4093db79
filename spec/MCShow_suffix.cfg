SPECIFICATION Spec
CONSTANTS
  Levels = 2
  InfixSigns = {"-", "^"}
  PrefixSigns = {"-"}
  SuffixSigns = {"!"}
  Leaves = {"a"}
  Many = FALSE
  Variant = "suffix-flat"
INVARIANTS ShownReadsBack FullReadsBack InOrder 
CHECK_DEADLOCK FALSE
