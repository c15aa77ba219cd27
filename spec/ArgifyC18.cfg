SPECIFICATION Spec
CONSTANTS
  Alphabet = {32, 34, 39, 92, 97}
  MaxLen = 6
INVARIANTS Good Plain
CHECK_DEADLOCK FALSE
