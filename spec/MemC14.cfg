SPECIFICATION Spec
CONSTANTS
  Objs = {}
  Strs = {0}
  NObj = 0
  NStr = 2
  Fills = {}
  TextIx = {1, 2, 3, 4}
  MaxLen = 4
  MaxReuse = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
