SPECIFICATION Spec
CONSTANTS
 Steps = 3
 Retries = 1
 Simplified = FALSE
INVARIANTS InOrder ReturnedAll GaveUpWell Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
