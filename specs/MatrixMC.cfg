SPECIFICATION Spec
CONSTANTS
  Rows = 2
  Cols = 3
  Values = {"1", "-1"}
  MaxOps = 5
  Tidy = FALSE
VIEW View
INVARIANTS Refilled Structure Waiting InRange Fair Agree
CHECK_DEADLOCK FALSE
