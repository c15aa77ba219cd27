SPECIFICATION Spec
CONSTANTS
  Pools = {0, 1}
  Strs0 = {"61", "6161"}
  Prefixes = {}
  NPtr = 2
  MaxGrow = 2
  MaxU = 0
  Modes = {0}
  Ops = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
