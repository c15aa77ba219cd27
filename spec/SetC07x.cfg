SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 1}
  Tables = {0, 1}
  Keys = {0, 1, 2, 4}
  Slots = {0}
  Ops = {"map", "mem", "ro", "pos", "it", "try"}
VIEW View
INVARIANTS Good Shape HTypeOK
CHECK_DEADLOCK FALSE
