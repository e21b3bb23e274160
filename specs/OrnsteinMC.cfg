SPECIFICATION Spec
CONSTANTS
  As = {"0.5", "1.5"}
  Cs = {"0", "0.5", "2"}
  Thetas = {"0", "1", "3"}
  Sigmas = {"0", "1"}
  Ns = {0, 1, 2}
  Means = {"-2", "0", "1"}
  Firsts = {"-1", "0", "1.25"}
  Zs = {"-1", "0", "1"}
  MaxSteps = 1
INVARIANTS Bounded EnoughSteps Reverts FromSaved
PROPERTIES Kept
CHECK_DEADLOCK FALSE
