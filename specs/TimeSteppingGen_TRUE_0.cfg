SPECIFICATION GenSpec
CONSTANTS
 Steps = 3
 Retries = 0
 Simplified = TRUE
CHECK_DEADLOCK FALSE
