SPECIFICATION Spec
CONSTANTS
  Ops = {"hash", "stack", "list", "skip", "whole"}
  Keys = {0, 2}
  N = 3
VIEW View
INVARIANTS Good Formula
CHECK_DEADLOCK FALSE
