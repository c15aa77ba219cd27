SPECIFICATION Spec
CONSTANTS
  W = "f"
  Flags0 = {0, 229, 300}
  Ops = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
