SPECIFICATION Spec
CONSTANTS
  Names = {"a"}
  ClockIx = {1, 2, 3}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
