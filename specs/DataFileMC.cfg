SPECIFICATION Spec
CONSTANTS MaxEntries = 4
 Kinds0 = {"good", "narrow", "off"}
 Members = {"p", "a", "s", "b"}
INVARIANTS Outcome OwnValues Untouched Nothing Partition
CHECK_DEADLOCK FALSE
