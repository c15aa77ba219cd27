SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 1, 2}
  Tables = {0}
  Keys = {0, 1, 2, 4, 6, 8}
  Slots = {0, 1}
  Ops = {"map", "get", "pos", "it", "ro"}
VIEW View
INVARIANTS Good Shape HTypeOK
CHECK_DEADLOCK FALSE
