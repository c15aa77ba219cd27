SPECIFICATION Spec
CONSTANTS
  Sizes = {0}
  Families = {"fds"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
