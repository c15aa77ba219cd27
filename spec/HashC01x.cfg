SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 1, 2, 7}
  Tables = {0}
  Keys = {0, 1, 2, 3, 4, 6, 8, 10}
  Slots = {}
  Ops = {"map", "get"}
VIEW View
INVARIANTS Good Shape HTypeOK
CHECK_DEADLOCK FALSE
