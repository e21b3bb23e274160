SPECIFICATION GenSpec
CONSTANTS
 Steps = 3
 Retries = 0
 Simplified = FALSE
CHECK_DEADLOCK FALSE
