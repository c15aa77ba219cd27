SPECIFICATION Spec
CONSTANTS
  Lists = {0}
  Keys = {0, 1, 2, 4, 6, 8}
  MaxLevel = 3
  Ops = {"find"}
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
