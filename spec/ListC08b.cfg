SPECIFICATION Spec
CONSTANTS
  Lists = {0, 1}
  Slots = {}
  Data0 = {1}
  NCell = 4
  Ops = {"del", "read", "trunc"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape LTypeOK
CHECK_DEADLOCK FALSE
