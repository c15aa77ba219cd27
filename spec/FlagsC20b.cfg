SPECIFICATION Spec
CONSTANTS
  W = "f"
  Flags0 = {100, 200, 329}
  Ops = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
