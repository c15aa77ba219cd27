SPECIFICATION Spec
CONSTANTS
  NKid = 2
  Modes = {"cc-", "-co", "uc-"}
  Ops = {}
  Closed = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
