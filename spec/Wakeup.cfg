CONSTANTS
  MaxArr = 2
  MaxCalls = 2
  Broken = ""
  Live = FALSE
  Gen = TRUE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Allows
INVARIANT Awake
CHECK_DEADLOCK FALSE
