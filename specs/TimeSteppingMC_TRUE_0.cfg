SPECIFICATION Spec
CONSTANTS
 Steps = 3
 Retries = 0
 Simplified = TRUE
INVARIANTS InOrder ReturnedAll GaveUpWell Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
