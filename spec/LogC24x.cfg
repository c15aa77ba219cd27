SPECIFICATION Spec
CONSTANTS
  PatIx = {1, 2, 3}
  TimeIx = {1, 2, 3, 6}
  Ops = {"stream", "sys", "opt"}
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
