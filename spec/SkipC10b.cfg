SPECIFICATION Spec
CONSTANTS
  Lists = {0, 1}
  Keys = {0, 2}
  MaxLevel = 2
  Ops = {"find", "del"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
