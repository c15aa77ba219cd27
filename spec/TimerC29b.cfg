SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  ClockIx = {1, 4}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
