SPECIFICATION Spec
CONSTANTS
  PatIx = {1}
  TimeIx = {}
  Ops = {"stream", "sys", "opt"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
