SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 2}
  Tables = {0, 1, 2}
  Keys = {0, 2, 4}
  Slots = {}
  Ops = {"map", "alg", "del"}
VIEW View
INVARIANTS Good Shape HTypeOK
CHECK_DEADLOCK FALSE
