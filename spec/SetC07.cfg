SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 2}
  Tables = {0}
  Keys = {0, 2, 4}
  Slots = {0}
  Ops = {"map", "mem", "ro", "pos", "it", "try"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape HTypeOK
CHECK_DEADLOCK FALSE
