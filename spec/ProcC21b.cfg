SPECIFICATION Spec
CONSTANTS
  NKid = 1
  Modes = {"ccc", "-nc", "znz", "uu-", "-uu", "uuu", "cuu", "--o"}
  Ops = {"file"}
  Closed = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
