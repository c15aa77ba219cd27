SPECIFICATION Spec
CONSTANTS
  LineIx = {1}
  Files = 2
  Incr = 2
  NLine = 2
  NTok = 1
  Lens = {1}
  Ops = {"place"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
