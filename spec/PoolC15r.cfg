SPECIFICATION Spec
CONSTANTS
  Pools = {0}
  Strs0 = {"6b", "6b6b"}
  Prefixes = {}
  NPtr = 2
  MaxGrow = 2
  MaxU = 0
  Modes = {0}
  Ops = {"ro"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
