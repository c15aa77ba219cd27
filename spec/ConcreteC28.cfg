SPECIFICATION Spec
CONSTANTS
  Alphabet = {96, 39, 84, 95, 97}
  MaxLen = 6
INVARIANTS Good Inside
CHECK_DEADLOCK FALSE
