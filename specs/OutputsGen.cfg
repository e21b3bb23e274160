SPECIFICATION Spec
CONSTANTS
  MinTries = 2
  MaxTries = 4
  RunIds = {"r1", "r2", "r3"}
  Names = {"a", "b", "c", "d"}
  Recording = TRUE
  Pick <- PickOne
INVARIANTS Exclusive NoLossForNothing Dump
CHECK_DEADLOCK FALSE
