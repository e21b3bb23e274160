SPECIFICATION Spec
CONSTANTS
 Slots = {1, 2, 3}
 Mems = {1, 2}
INVARIANTS Shape
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
