SPECIFICATION Spec
CONSTANTS
  Objs = {0, 1}
  Strs = {}
  NObj = 2
  NStr = 0
  Fills = {1}
  TextIx = {}
  MaxLen = 0
  MaxReuse = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
