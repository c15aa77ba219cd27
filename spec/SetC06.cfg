SPECIFICATION Spec
CONSTANTS
  Kinds = {1}
  Tables = {0, 1, 2}
  Keys = {0, 1, 2}
  Slots = {}
  Ops = {"map", "alg", "del"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape HTypeOK
CHECK_DEADLOCK FALSE
