SPECIFICATION Spec
CONSTANTS
  Kinds = {"hash", "set", "list", "skip", "stack", "objs", "strs", "pool", "glob", "args", "src", "prs"}
  Units = 5
  Texts = {}
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
