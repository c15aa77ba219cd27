SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 2, 7}
  Tables = {0}
  Keys = {0, 1, 2, 4, 6}
  Slots = {}
  Ops = {"map", "get"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape HTypeOK
CHECK_DEADLOCK FALSE
