SPECIFICATION Spec
CONSTANTS
  Lists = {0, 1}
  Slots = {}
  Data0 = {1, 2}
  NCell = 5
  Ops = {"del", "read", "set", "trunc"}
VIEW View
INVARIANTS Good Shape LTypeOK
CHECK_DEADLOCK FALSE
