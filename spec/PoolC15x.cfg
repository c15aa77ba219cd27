SPECIFICATION Spec
CONSTANTS
  Pools = {0, 1}
  Strs0 = {"61", "6161", "62"}
  Prefixes = {}
  NPtr = 5
  MaxGrow = 4
  MaxU = 0
  Modes = {0, 3}
  Ops = {}
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
