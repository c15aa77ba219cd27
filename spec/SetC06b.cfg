SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 9}
  Tables = {0, 1}
  Keys = {0, 2, 4}
  Slots = {}
  Ops = {"map", "alg", "ro"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape HTypeOK
CHECK_DEADLOCK FALSE
