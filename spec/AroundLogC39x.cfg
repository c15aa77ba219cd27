SPECIFICATION ASpec
CONSTANTS
  PatIx = {1, 2, 3}
  TimeIx = {1, 2, 3, 6}
  Ops = {"stream", "sys"}
VIEW AView
INVARIANTS Good Looks
CHECK_DEADLOCK FALSE
