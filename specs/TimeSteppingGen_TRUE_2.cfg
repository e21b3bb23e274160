SPECIFICATION GenSpec
CONSTANTS
 Steps = 3
 Retries = 2
 Simplified = TRUE
CHECK_DEADLOCK FALSE
