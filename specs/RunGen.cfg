SPECIFICATION Spec
CONSTANTS
  Valid <- MCValid
  Computable <- MCComputable
  MCRuns = {"r1", "r2", "r3", "r4"}
  MCNames = {"a", "b", "c", "d"}
  MCVersions = {"good", "other", "bad", "hard"}
  MaxChanges = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
