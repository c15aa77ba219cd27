SPECIFICATION Spec
CONSTANTS
  NKid = 2
  Modes = {"c--", "-cc"}
  Ops = {"sig", "shut"}
  Closed = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
