SPECIFICATION Spec
CONSTANTS
  Kinds = {"set", "hash", "skip"}
  Slots = {0, 1}
  Funs = {"set"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
