SPECIFICATION GenSpec
CONSTANTS
 Slots = {1, 2, 3}
 Mems = {1, 2}
 Depth = 14
CHECK_DEADLOCK FALSE
