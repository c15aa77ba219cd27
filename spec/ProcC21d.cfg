SPECIFICATION Spec
CONSTANTS
  NKid = 2
  Modes = {"-c-", "-uu", "--u", "ucu", "-cu", "-uc"}
  Ops = {"std"}
  Closed = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
