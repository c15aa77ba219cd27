SPECIFICATION Spec
CONSTANTS
  Stacks = {0, 1}
  Data0 = {0, 1, 2}
  Depth = 3
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good
CHECK_DEADLOCK FALSE
