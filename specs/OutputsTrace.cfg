SPECIFICATION Spec
CONSTANT MinTries = 10
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
