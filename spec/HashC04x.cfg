SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 1, 2}
  Tables = {0}
  Keys = {0, 2, 4, 6, 8, 10}
  Slots = {}
  Ops = {"map", "get", "st", "ro"}
VIEW View
INVARIANTS Good Shape HTypeOK
CHECK_DEADLOCK FALSE
