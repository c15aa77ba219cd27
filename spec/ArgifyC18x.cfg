SPECIFICATION Spec
CONSTANTS
  Alphabet = {32, 9, 34, 39, 92, 97}
  MaxLen = 7
INVARIANTS Good Plain
CHECK_DEADLOCK FALSE
