SPECIFICATION Spec
CONSTANTS
  NKid = 3
  Modes = {"cc-", "uc-", "uco", "-c-"}
  Ops = {"brk", "file"}
  Closed = {}
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
