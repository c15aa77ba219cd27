SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 2, 7}
  Tables = {0}
  Keys = {0, 2, 4, 6}
  Slots = {0}
  Ops = {"map", "pos", "it", "ro"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape HTypeOK
CHECK_DEADLOCK FALSE
