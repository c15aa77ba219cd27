SPECIFICATION Spec
CONSTANTS
  Kinds = {"hash", "hstr", "hptr", "set", "sstr", "sptr", "pool", "glob", "skip", "list", "stack", "objs", "strs", "args"}
  U = 60
  Units = 3
  Uses = {"argify", "argvec", "timer", "flags", "symbol", "source", "stats", "print", "walk", "loops", "member", "truncate", "cutoff", "emptied", "union", "equal", "poolstr", "string", "growth", "message", "number", "soundex", "name", "memory"}
  Growing = TRUE
  Levels = TRUE
  Reuse = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
