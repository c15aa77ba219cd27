SPECIFICATION Spec
CONSTANTS
  PatIx = {1, 2, 3}
  TimeIx = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  Ops = {}
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
