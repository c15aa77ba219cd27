SPECIFICATION Spec
CONSTANTS
  Ops = {"dbg", "flg"}
  Cycles = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
