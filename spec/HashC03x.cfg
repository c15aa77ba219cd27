SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 1, 2}
  Tables = {0, 1}
  Keys = {0, 1, 2, 4}
  Slots = {0}
  Ops = {"map", "get", "ro", "pos", "try", "del"}
VIEW View
INVARIANTS Good Shape HTypeOK
CHECK_DEADLOCK FALSE
