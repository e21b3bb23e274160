SPECIFICATION Spec
CONSTANTS MaxEntries = 4
 Kinds0 = {"good", "narrow", "wide", "short", "unsorted", "off"}
 Members = {"p", "a", "s", "b", "v"}
INVARIANTS Outcome OwnValues Untouched Nothing Partition
CHECK_DEADLOCK FALSE
