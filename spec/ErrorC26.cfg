SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good
CHECK_DEADLOCK FALSE
