SPECIFICATION Spec
CONSTANTS
  Lists = {0, 1}
  Strs0 = {"61", "6263"}
  MaxN = 3
  MaxGrow = 4
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
