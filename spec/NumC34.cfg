SPECIFICATION Spec
CONSTANTS
  What = "soundex"
  Bound = {1, 2, 3, 4, 5, 6}
  Alphabet = {65, 66, 102, 67, 72, 108, 46}
INVARIANTS Good
CHECK_DEADLOCK FALSE
