SPECIFICATION GenSpec
CONSTANTS
 Points = {1, 2, 3, 4, 5}
 SimFails = {3}
 DerFails = {4}
 Depth = 14
CHECK_DEADLOCK FALSE
