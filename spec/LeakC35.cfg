SPECIFICATION Spec
CONSTANTS
  Ops = {"hash", "set", "stack"}
  Keys = {0, 2}
  N = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Formula
CHECK_DEADLOCK FALSE
