SPECIFICATION Spec
CONSTANTS MaxTimes = 2
INVARIANTS EveryTime EveryComponent Ascending Written Same
PROPERTIES Keeps
CHECK_DEADLOCK FALSE
