SPECIFICATION Spec
CONSTANTS
  Kind = "t"
  N = 2
  MaxLen = 1
  Broken = ""
  Gen = FALSE
VIEW View
INVARIANTS Allowed NoDeadlock Clean
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
