SPECIFICATION Spec
CONSTANTS
  Valid <- MCValid
  Computable <- MCComputable
  MCRuns = {"r1", "r2"}
  MCNames = {"a", "b", "c"}
  MCVersions = {"good", "other", "bad", "hard"}
  MaxChanges = 2
INVARIANTS OwnPlace Complete NothingWritten Verdict Soundly
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
