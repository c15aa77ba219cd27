SPECIFICATION Spec
CONSTANTS
  PatIx = {1, 2}
  TimeIx = {1, 3}
  Ops = {"stream"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
