SPECIFICATION Spec
CONSTANTS
  N = 4
  M = 4
  Faults = 3
  Chunk = 4
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
