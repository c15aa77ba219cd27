SPECIFICATION ASpec
CONSTANTS
  NKid = 2
  Modes = {"-c-", "u--"}
  Ops = {"sig"}
  Closed = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Looks
CHECK_DEADLOCK FALSE
