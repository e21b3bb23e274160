SPECIFICATION Spec
CONSTANTS
 Slots = {1, 2}
 Mems = {1, 2}
 Depth = 2
VIEW View
INVARIANTS Shape ExactAtPoints Between
PROPERTY Isolated
CHECK_DEADLOCK FALSE
