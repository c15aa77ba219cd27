SPECIFICATION Spec
CONSTANTS
  Ops = {"str", "prs", "dbg", "flg", "tim", "list"}
  Cycles = 3
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
