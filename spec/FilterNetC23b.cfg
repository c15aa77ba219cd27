SPECIFICATION Spec
CONSTANTS
  N = 0
  P = 3
  Cin = 1
  Cout = 1
  Faults = 2
  Kinds = {"cat", "dup", "pre", "mix", "post", "sink"}
INVARIANTS InOrder Complete NoLoss
PROPERTY Ends
CHECK_DEADLOCK TRUE
