SPECIFICATION GenSpec
CONSTANTS
 Steps = 3
 Retries = 1
 Simplified = TRUE
CHECK_DEADLOCK FALSE
