SPECIFICATION Spec
CONSTANTS
  N = 3
  M = 3
  Faults = 1
  Chunk = 3
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
