SPECIFICATION MSpec
CONSTANT MaxMade = 3
INVARIANTS GivenStays Exactly Enforced Independent Harmless Agreement
CHECK_DEADLOCK FALSE
