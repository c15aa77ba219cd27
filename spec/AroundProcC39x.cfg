SPECIFICATION ASpec
CONSTANTS
  NKid = 3
  Modes = {"cc-", "uc-", "-c-"}
  Ops = {"shut"}
  Closed = {}
VIEW View
INVARIANTS Good Looks
CHECK_DEADLOCK FALSE
