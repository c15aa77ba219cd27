SPECIFICATION Spec
CONSTANTS
  W = "d"
  Flags0 = {0, 29, 129, 200, 329}
  Ops = {}
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
