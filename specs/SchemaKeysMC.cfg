SPECIFICATION Spec
INVARIANTS OwnKept Done
PROPERTIES Again Answers
CHECK_DEADLOCK FALSE
