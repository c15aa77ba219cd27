SPECIFICATION Spec
CONSTANTS
  Kinds = {"hash", "set", "list", "skip", "objs", "strs", "args", "other"}
  Slots = {0, 1}
  Funs = {"hash", "list", "skip", "objs", "strs", "args", "set"}
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
