SPECIFICATION Spec
CONSTANTS Prefixes <- SI
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
