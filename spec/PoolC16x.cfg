SPECIFICATION Spec
CONSTANTS
  Pools = {0}
  Strs0 = {"61", "6131", "6132"}
  Prefixes = {"61", "6161"}
  NPtr = 5
  MaxGrow = 4
  MaxU = 4
  Modes = {0}
  Ops = {"global"}
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
