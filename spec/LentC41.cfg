SPECIFICATION Spec
CONSTANTS
  Kinds = {"strs", "strn", "pool", "pooln", "glob", "globn", "grown", "arg", "argn", "argify", "dflag", "flag", "timer", "line", "file", "cpp", "symbol", "concrete", "hash", "hstr", "set", "sstr", "skip", "progname", "hptr", "hdatum", "sptr", "list", "stack", "skipd", "sarg"}
  Reads = {"soundex", "b26", "b64", "hashes", "dbgset", "flgset", "loginfo", "logerror", "warning", "srcerror", "srcmsg", "parse", "cppline", "exists", "argify", "argquote", "spawn", "filter", "concrete", "retrieve", "member", "find", "facility", "timers", "bits"}
  Max1 = 3
  Together = 1
  NoCopy = {}
  Writes = {}
  Peeks = {}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
