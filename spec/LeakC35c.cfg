SPECIFICATION Spec
CONSTANTS
  Ops = {"skip", "whole"}
  Keys = {0, 2}
  N = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Formula
CHECK_DEADLOCK FALSE
