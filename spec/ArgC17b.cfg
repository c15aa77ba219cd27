SPECIFICATION Spec
CONSTANTS
  Lists = {0, 1}
  Strs0 = {"61"}
  MaxN = 2
  MaxGrow = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
