SPECIFICATION Spec
CONSTANTS
  Sizes = {2}
  Families = {"hash", "list", "mem", "str", "sys"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
