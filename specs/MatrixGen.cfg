SPECIFICATION Spec
CONSTANTS
  Rows = 3
  Cols = 4
  Values = {"1", "-1", "2", "0.5", "1e10"}
  MaxOps = 24
  Tidy = TRUE
  Pick <- PickOne
INVARIANTS Refilled Structure Dump
CHECK_DEADLOCK FALSE
