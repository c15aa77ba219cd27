SPECIFICATION Spec
CONSTANTS
  Lists = {0}
  Keys = {0, 2, 4}
  MaxLevel = 2
  Ops = {"it"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
