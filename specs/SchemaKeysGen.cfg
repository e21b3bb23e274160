SPECIFICATION Spec
INVARIANT Dump
CONSTRAINT Short
CHECK_DEADLOCK FALSE
