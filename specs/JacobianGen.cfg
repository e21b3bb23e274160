SPECIFICATION GenSpec
CONSTANTS
 Slots = {1, 2, 3}
 Mems = {1, 2}
 Depth = 14
 Pick <- PickOne
CHECK_DEADLOCK FALSE
