SPECIFICATION Spec
CONSTANTS
  Ops = {"str", "prs"}
  Cycles = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
