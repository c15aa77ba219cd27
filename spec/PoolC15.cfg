SPECIFICATION Spec
CONSTANTS
  Pools = {0}
  Strs0 = {"61", "6161", "62"}
  Prefixes = {}
  NPtr = 3
  MaxGrow = 2
  MaxU = 0
  Modes = {0, 1, 2, 3}
  Ops = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
