SPECIFICATION Spec
CONSTANTS
  Objs = {0, 1}
  Strs = {}
  NObj = 5
  NStr = 0
  Fills = {1, 2}
  TextIx = {}
  MaxLen = 0
  MaxReuse = 2
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
