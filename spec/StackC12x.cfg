SPECIFICATION Spec
CONSTANTS
  Stacks = {0, 1}
  Data0 = {0, 1, 2}
  Depth = 5
VIEW View
INVARIANTS Good
CHECK_DEADLOCK FALSE
