SPECIFICATION GenSpec
CONSTANTS
 Keys = {1,2,3,4,5,6,7}
 Failing = {}
 Depth = 12
CHECK_DEADLOCK FALSE
