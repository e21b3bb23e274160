SPECIFICATION Spec
CONSTANTS
 Points = {1, 2, 3, 4}
 SimFails = {3}
 DerFails = {4}
 Depth = 6
VIEW View
INVARIANTS AnswerIsCurrent CacheTruthful
CHECK_DEADLOCK FALSE
