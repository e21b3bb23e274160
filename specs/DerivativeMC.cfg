SPECIFICATION Spec
CONSTANTS Coeff = {"0", "1", "-3"} Points = {"0", "2", "-1"}
INVARIANT Decides
CHECK_DEADLOCK FALSE
