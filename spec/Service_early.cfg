SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Ops = {"f", "g"}
  Args = {1, 2}
  MaxCalls = 3
  Mode = "early"
INVARIANTS Exact OneAnswer
CHECK_DEADLOCK FALSE
