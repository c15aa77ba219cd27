SPECIFICATION ASpec
CONSTANTS
  PatIx = {1, 2}
  TimeIx = {1, 3}
  Ops = {"stream"}
VIEW AView
ACTION_CONSTRAINT Emit
INVARIANTS Good Looks
CHECK_DEADLOCK FALSE
