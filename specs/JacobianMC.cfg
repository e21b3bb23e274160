SPECIFICATION Spec
CONSTANTS
 Slots = {1, 2}
 Mems = {1}
 Depth = 2
VIEW View
INVARIANTS Complete Sane
CHECK_DEADLOCK FALSE
