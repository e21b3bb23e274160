SPECIFICATION Spec
CONSTANTS
  MinTries = 2
  MaxTries = 2
  RunIds = {"r1", "r2", "r3"}
  Names = {"a", "b", "c"}
  Recording = FALSE
INVARIANTS Exclusive NoLossForNothing
PROPERTIES NeverRemoved Finish
CHECK_DEADLOCK FALSE
