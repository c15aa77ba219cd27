SPECIFICATION Spec
CONSTANTS
  Lists = {0}
  Strs0 = {"61", "6263"}
  MaxN = 4
  MaxGrow = 4
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
