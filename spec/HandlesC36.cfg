SPECIFICATION Spec
CONSTANTS
  Kinds = {"hash", "set", "list", "skip", "objs", "strs", "args", "other"}
  Slots = {0}
  Funs = {"hash", "list", "skip", "objs", "strs", "args", "set"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
