SPECIFICATION GenSpec
CONSTANTS
 Steps = 3
 Retries = 2
 Simplified = FALSE
CHECK_DEADLOCK FALSE
