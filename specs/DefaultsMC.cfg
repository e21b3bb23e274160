SPECIFICATION MSpec
CONSTANT MaxMade = 2
INVARIANTS GivenStays Exactly Enforced Independent Harmless Agreement
CHECK_DEADLOCK FALSE
