SPECIFICATION Spec
CONSTANTS
  NodeIds = {"a", "b", "c"}
  Missing = {"zz"}
  LineIds = {"e", "f", "g"}
  MinEdges = 2
  MaxOps = 7
INVARIANTS OwnOnly Fresh NeverNegative Dump
CHECK_DEADLOCK FALSE
