SPECIFICATION Spec
CONSTANTS
  Pools = {}
  Strs0 = {"61", "6131"}
  Prefixes = {"61"}
  NPtr = 3
  MaxGrow = 4
  MaxU = 3
  Modes = {}
  Ops = {"global"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
