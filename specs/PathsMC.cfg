SPECIFICATION Spec
CONSTANTS
  Alphabet = {"/", ".", "a"}
  MaxLen = 4
INVARIANTS Faithful Itself Blind
CHECK_DEADLOCK FALSE
