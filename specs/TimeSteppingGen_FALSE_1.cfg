SPECIFICATION GenSpec
CONSTANTS
 Steps = 3
 Retries = 1
 Simplified = FALSE
CHECK_DEADLOCK FALSE
