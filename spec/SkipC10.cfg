SPECIFICATION Spec
CONSTANTS
  Lists = {0}
  Keys = {0, 1, 2, 4}
  MaxLevel = 3
  Ops = {"find"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
