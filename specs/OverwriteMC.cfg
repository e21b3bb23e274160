SPECIFICATION Spec
INVARIANTS Always End
PROPERTY Answers
CHECK_DEADLOCK FALSE
