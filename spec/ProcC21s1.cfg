SPECIFICATION Spec
CONSTANTS
  NKid = 1
  Modes = {"ccc", "cc-", "--c", "-nc", "znz", "n-u", "-u-", "uu-", "-cu", "--o", "c-o"}
  Ops = {"std", "file"}
  Closed = {0}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
