SPECIFICATION Spec
CONSTANTS
  N = 7
  P = 6
  Cin = 3
  Cout = 2
  Faults = 4
  Kinds = {"cat", "dup", "pre", "mix", "post", "sink"}
INVARIANTS InOrder Complete NoLoss
PROPERTY Ends
CHECK_DEADLOCK TRUE
