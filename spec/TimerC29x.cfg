SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  ClockIx = {1, 2, 3}
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
