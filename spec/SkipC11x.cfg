SPECIFICATION Spec
CONSTANTS
  Lists = {0}
  Keys = {0, 1, 2, 4, 6}
  MaxLevel = 2
  Ops = {"it"}
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
