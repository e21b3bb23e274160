SPECIFICATION Spec
CONSTANTS Lay = 2 Vals = {"0", "1", "-1"}
INVARIANTS Admitted Sound Conserved
CHECK_DEADLOCK FALSE
