SPECIFICATION Spec
CONSTANTS
  Ops = {"tim", "list", "dbg"}
  Cycles = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
