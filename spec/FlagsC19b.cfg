SPECIFICATION Spec
CONSTANTS
  W = "d"
  Flags0 = {100, 200, 329}
  Ops = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
