SPECIFICATION Spec
CONSTANTS
  MaxLen = 12
  MaxWidth = 4
  Alphabet = {0, 1}
INVARIANTS Accounted Exclusive PosSet Right
PROPERTY Finishes
CHECK_DEADLOCK FALSE
