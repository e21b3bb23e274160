SPECIFICATION Spec
CONSTANT Max = 6
INVARIANTS Minimal ConstraintTimes
CHECK_DEADLOCK FALSE
