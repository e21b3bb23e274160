SPECIFICATION Spec
CONSTANTS MaxEntries = 7
 Kinds0 = {"good", "good2", "good3", "good4", "good5", "good6", "good7", "narrow", "wide", "short", "unsorted", "off"}
 Members = {"p", "a", "s", "b", "v"}
INVARIANTS Outcome OwnValues Untouched Nothing Dump
CHECK_DEADLOCK FALSE
