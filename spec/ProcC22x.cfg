SPECIFICATION Spec
CONSTANTS
  NKid = 3
  Modes = {"cc-", "u--", "-c-"}
  Ops = {"sig", "shut"}
  Closed = {}
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
