SPECIFICATION Spec
CONSTANTS
  Kinds = {0}
  Tables = {0, 1}
  Keys = {0, 1, 2, 4}
  Slots = {}
  Ops = {"map", "get", "del"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape HTypeOK
CHECK_DEADLOCK FALSE
