SPECIFICATION Spec
CONSTANTS
  N = 2
  M = 2
  Faults = 2
  Chunk = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
