SPECIFICATION Spec
CONSTANTS
  Objs = {}
  Strs = {0, 1}
  NObj = 0
  NStr = 3
  Fills = {}
  TextIx = {1, 2, 3, 4}
  MaxLen = 4
  MaxReuse = 2
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
