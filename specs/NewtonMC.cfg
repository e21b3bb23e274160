SPECIFICATION Spec
CONSTANTS
 Starts = {"0", "1", "-3", "0.5", "1000", "0.57735026918962584", "-2.5"}
 MaxIts = {0, 1, 3, 60}
 Tol = "1e-8"
INVARIANT Verdict
PROPERTY Ends
CHECK_DEADLOCK FALSE
