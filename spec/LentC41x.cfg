SPECIFICATION Spec
CONSTANTS
  Kinds = {"strs", "strn", "pool", "pooln", "glob", "globn", "grown", "arg", "argn", "argify", "dflag", "flag", "timer", "line", "file", "cpp", "symbol", "concrete", "hash", "hstr", "set", "sstr", "skip", "progname", "hptr", "hdatum", "sptr", "list", "stack", "skipd", "sarg"}
  Reads = {"soundex"}
  Max1 = 4
  Together = 2
  NoCopy = {}
  Writes = {}
  Peeks = {}
VIEW View
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
