SPECIFICATION Spec
CONSTANTS
  NKid = 2
  Modes = {"-c-", "uc-"}
  Ops = {"limit"}
  Closed = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
