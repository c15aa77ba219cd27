SPECIFICATION Spec
CONSTANTS
  LineIx = {1, 2}
  Files = 2
  Incr = 2
  NLine = 2
  NTok = 2
  Lens = {0, 1}
  Ops = {"place", "acc"}
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
