SPECIFICATION Spec
CONSTANTS
  Lists = {0}
  Slots = {0, 1}
  Data0 = {1}
  NCell = 4
  Ops = {"pos", "trunc"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape LTypeOK
CHECK_DEADLOCK FALSE
