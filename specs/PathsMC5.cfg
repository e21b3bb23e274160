SPECIFICATION Spec
CONSTANTS
  Alphabet = {"/", ".", "a", "b"}
  MaxLen = 5
INVARIANTS Faithful Itself Blind
CHECK_DEADLOCK FALSE
