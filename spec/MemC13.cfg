SPECIFICATION Spec
CONSTANTS
  Objs = {0}
  Strs = {}
  NObj = 3
  NStr = 0
  Fills = {1, 2}
  TextIx = {}
  MaxLen = 0
  MaxReuse = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
