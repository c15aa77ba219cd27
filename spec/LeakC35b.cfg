SPECIFICATION Spec
CONSTANTS
  Ops = {"list"}
  Keys = {}
  N = 3
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Formula
CHECK_DEADLOCK FALSE
