SPECIFICATION Spec
CONSTANTS
  Kinds = {"hash", "set", "list", "skip", "stack", "objs", "strs", "pool", "glob", "args", "src", "prs"}
  Units = 2
  Texts = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
