SPECIFICATION Spec
CONSTANTS
  Ids = {"a", "b", "c"}
  Types = {"S", "T"}
  MaxTop = 3
  MaxBnd = 2
INVARIANTS Verdict Ends OnePerId
CHECK_DEADLOCK FALSE
