SPECIFICATION Spec
CONSTANTS
 Keys = {1,2,3,4}
 Failing = {3}
 Depth = 4
INVARIANTS NeverServesFailed HoldsLast
CHECK_DEADLOCK FALSE
