SPECIFICATION Spec
CONSTANTS
  Kinds = {"hash", "set", "pool", "skip", "list", "objs"}
  U = 300
  Units = 8
  Uses = {}
  Growing = TRUE
  Levels = TRUE
  Reuse = TRUE
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
