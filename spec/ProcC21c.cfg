SPECIFICATION Spec
CONSTANTS
  NKid = 3
  Modes = {"-c-", "uc-", "uu-"}
  Ops = {}
  Closed = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
