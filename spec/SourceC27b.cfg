SPECIFICATION Spec
CONSTANTS
  LineIx = {1, 2, 3}
  Files = 1
  Incr = 2
  NLine = 5
  NTok = 1
  Lens = {2}
  Ops = {"acc"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
