SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 1}
  Tables = {0}
  Keys = {0, 2, 3}
  Slots = {0, 1}
  Ops = {"map", "pos", "it", "ro"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape HTypeOK
CHECK_DEADLOCK FALSE
