SPECIFICATION Spec
CONSTANTS
  N = 4
  P = 3
  Cin = 2
  Cout = 2
  Faults = 2
  Kinds = {"cat", "dup", "pre", "mix", "post", "sink"}
INVARIANTS InOrder Complete NoLoss
PROPERTY Ends
CHECK_DEADLOCK TRUE
