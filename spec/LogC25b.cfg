SPECIFICATION Spec
CONSTANTS
  PatIx = {1, 3}
  TimeIx = {1, 6, 7, 8, 9}
  Ops = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
