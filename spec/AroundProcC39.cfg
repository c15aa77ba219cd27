SPECIFICATION ASpec
CONSTANTS
  NKid = 1
  Modes = {"cc-", "---", "-co", "uc-", "ccc"}
  Ops = {"file", "shut"}
  Closed = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Looks
CHECK_DEADLOCK FALSE
