SPECIFICATION Spec
CONSTANTS
  NKid = 2
  Modes = {"-c-"}
  Ops = {"shut", "limit"}
  Closed = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
