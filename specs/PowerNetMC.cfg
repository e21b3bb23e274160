SPECIFICATION Spec
CONSTANTS Lay = 2 Angles = {0, 1} Volts = {1, 2}
INVARIANTS Conserved Orientation
CHECK_DEADLOCK FALSE
