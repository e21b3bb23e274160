SPECIFICATION Spec
CONSTANTS
  Prefixes <- SmallPrefixes
  Alphabet = {"k", "m", "d", "a", "1", ".", " ", "e"}
  MaxLen = 6
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
