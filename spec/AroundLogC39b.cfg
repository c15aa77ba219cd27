SPECIFICATION ASpec
CONSTANTS
  PatIx = {1}
  TimeIx = {}
  Ops = {"stream", "sys", "opt"}
VIEW AView
ACTION_CONSTRAINT Emit
INVARIANTS Good Looks
CHECK_DEADLOCK FALSE
