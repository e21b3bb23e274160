SPECIFICATION Spec
CONSTANTS
  Ids = {"a", "b", "c", "d", "e", "<none>"}
  Types = {"S", "T"}
  MaxTop = 6
  MaxBnd = 6
  Pick <- PickOne
INVARIANTS Verdict OnePerId Dump
CHECK_DEADLOCK FALSE
