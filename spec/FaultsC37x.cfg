SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2, 3, 6, 15, 36, 87}
  Families = {"hash", "list", "mem", "str", "sys", "fds"}
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
