SPECIFICATION Spec
CONSTANTS
  Lists = {0, 1}
  Slots = {0}
  Data0 = {1, 2}
  NCell = 3
  Ops = {"pos", "del"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape LTypeOK
CHECK_DEADLOCK FALSE
