SPECIFICATION Spec
CONSTANTS
  Objs = {}
  Strs = {0, 1}
  NObj = 0
  NStr = 1
  Fills = {}
  TextIx = {1, 2, 5}
  MaxLen = 3
  MaxReuse = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
