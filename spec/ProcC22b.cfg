SPECIFICATION Spec
CONSTANTS
  NKid = 2
  Modes = {"-c-", "---", "u--"}
  Ops = {"shut"}
  Closed = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
