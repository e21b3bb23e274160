SPECIFICATION Spec
CONSTANTS
  NodeIds = {"a", "b", "c"}
  Missing = {"zz"}
  LineIds = {"e", "f"}
  MinEdges = 0
  MaxOps = 2
INVARIANTS OwnOnly Fresh NeverNegative Undo
CHECK_DEADLOCK FALSE
