SPECIFICATION Spec
CONSTANTS
  Lists = {0, 1}
  Slots = {0, 1}
  Data0 = {1, 2}
  NCell = 4
  Ops = {"pos", "trunc", "del"}
VIEW View
INVARIANTS Good Shape LTypeOK
CHECK_DEADLOCK FALSE
