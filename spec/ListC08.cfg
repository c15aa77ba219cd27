SPECIFICATION Spec
CONSTANTS
  Lists = {0}
  Slots = {}
  Data0 = {1, 2}
  NCell = 3
  Ops = {"del", "read", "set", "trunc"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape LTypeOK
CHECK_DEADLOCK FALSE
